// C14: what a modelling object returns depends only on its parameters and on
// the point it is given, not on what was evaluated, failed or changed before,
// and it is what the object is defined to be.
#include "common.hpp"
#include <sstream>
using namespace w;
using Sum = CostSumTpl<double>;
using Resid = QuadraticResidualCostTpl<double>;
using Dist = QuadraticDistanceCostTpl<double>;
using FD1 = autodiff::finite_difference_wrapper<double, autodiff::TOC1>;
using FD2 = autodiff::finite_difference_wrapper<double, autodiff::TOC2>;
using C1Fn = C1FunctionTpl<double>;

// ------------------------------------------------------------- model graph
struct Node {
  enum Kind { FN, COST, RESID, SUM, FROM_FN, OUTER, TOC2, TOC1 } kind = FN;
  bool is_cost = false, c1 = false;
  int nr = 1;
  FnSpec fs;               // FN
  CostSpec cs;             // COST
  std::vector<int> kids;   // RESID, FROM_FN, OUTER, TOC2, TOC1: one; SUM: any
  std::vector<double> wts; // SUM
  MatrixXs W;              // RESID
  VectorXs slope;
  double constant = 0.;
  bool gn = true;
  std::vector<Smooth> outer; // OUTER
  double h = 1e-5;
  bool approx = false;      // its second-order reference is not exact
  long used_by = 0;
};
static const char *const node_names[] = {
    "function", "cost", "quadratic residual", "sum", "function as cost",
    "composition", "C2 by finite differences", "C1 by finite differences"};

struct Obj {
  shared_ptr<C1Fn> c1;
  shared_ptr<Fn> fn;
  shared_ptr<Cost> cost;
};
struct Graph {
  SpaceSpec sp;
  std::vector<Node> n;
};
static SpaceSpec flat_space(int n) {
  SpaceSpec s;
  BlockSpec b;
  b.n = n;
  s.blocks.push_back(b);
  return s;
}
static Obj build(const Graph &g, int i, Keep &k, std::vector<Obj> &done) {
  if ((int)done.size() < (int)g.n.size())
    done.resize(g.n.size());
  if (done[i].c1)
    return done[i];
  const Node &n = g.n[i];
  Obj o;
  std::vector<Obj> kid;
  for (int j : n.kids)
    kid.push_back(build(g, j, k, done));
  switch (n.kind) {
  case Node::FN:
    o.fn = build_fn(n.fs, g.sp, k);
    break;
  case Node::COST:
    o.cost = build_cost(n.cs, g.sp, k);
    break;
  case Node::RESID: {
    auto p = std::make_shared<Resid>(kid[0].fn, n.W, n.slope, n.constant);
    p->gauss_newton_ = n.gn;
    o.cost = p;
    break;
  }
  case Node::SUM: {
    auto p = std::make_shared<Sum>(g.sp.nx(), g.sp.ndx());
    for (size_t j = 0; j < kid.size(); j++)
      p->addComponent(kid[j].cost, n.wts[j]);
    o.cost = p;
    break;
  }
  case Node::FROM_FN:
    o.cost = downcast_function_to_cost<double>(kid[0].fn);
    break;
  case Node::OUTER: {
    shared_ptr<Fn> out = std::make_shared<SeamFn>(
        std::make_shared<PureFn>(flat_space(g.n[n.kids[0]].nr), n.outer));
    o.fn = compose<double>(out, kid[0].fn);
    break;
  }
  case Node::TOC2: {
    auto s = k.add(std::make_shared<polymorphic<Manifold>>(g.sp.make()));
    k.add(kid[0].c1);
    o.fn = std::make_shared<FD2>(**s, *kid[0].c1, n.h);
    break;
  }
  case Node::TOC1: {
    auto s = k.add(std::make_shared<polymorphic<Manifold>>(g.sp.make()));
    k.add(kid[0].c1);
    o.c1 = std::make_shared<FD1>(**s, *kid[0].c1, n.h);
    break;
  }
  }
  if (o.cost)
    o.fn = o.cost;
  if (o.fn)
    o.c1 = o.fn;
  done[i] = o;
  return o;
}

// reference, recomputed from the parameters as they are now
static VectorXs rval(const Graph &g, int i, const VectorXs &x);
static MatrixXs rjac(const Graph &g, int i, const VectorXs &x);
static bool rvhp(const Graph &g, int i, const VectorXs &x, const VectorXs &v,
                 MatrixXs &H); // false when there is no reference
// size of what is added up, for tolerances
struct Mag {
  double v, j, h;
};
static Mag rmag(const Graph &g, int i, const VectorXs &x) {
  const Node &n = g.n[i];
  Mag m{1., 1., 1.};
  std::vector<Mag> k;
  for (int j : n.kids)
    k.push_back(rmag(g, j, x));
  auto mx = [](const MatrixXs &a) {
    return a.size() ? a.cwiseAbs().maxCoeff() : 0.;
  };
  double nd = (double)g.sp.ndx();
  switch (n.kind) {
  case Node::FN:
  case Node::COST: {
    double xs = 1. + mx(x);
    double a = xs * xs * xs * xs;
    m = {a + mx(rval(g, i, x)), a + mx(rjac(g, i, x)), a * 10.};
    m.v *= nd * 10.;
    m.j *= nd * 10.;
    m.h *= nd * 100.;
    break;
  }
  case Node::RESID: {
    double nr = (double)n.W.rows();
    double w = mx(n.W) * nr, e = k[0].v, s = mx(n.slope) + 1.;
    m.v = nr * (e * e * w + s * e) + std::abs(n.constant);
    m.j = nr * k[0].j * (w * e + s);
    m.h = nr * (k[0].j * k[0].j * w + k[0].h * (w * e + s));
    break;
  }
  case Node::SUM:
    for (size_t j = 0; j < k.size(); j++) {
      double w = std::abs(n.wts[j]);
      m.v += w * k[j].v;
      m.j += w * k[j].j;
      m.h += w * k[j].h;
    }
    break;
  case Node::FROM_FN:
    m = k[0];
    break;
  case Node::OUTER: {
    VectorXs y = rval(g, n.kids[0], x);
    double ys = 1. + mx(y), a = ys * ys * ys * ys * 10.;
    double nr = (double)y.size();
    // errors of the inner value move the outer derivatives
    m = {nr * (a + a * k[0].v), nr * nr * a * k[0].j * (1. + k[0].v), 1.};
    break;
  }
  case Node::TOC2:
  case Node::TOC1:
    m = k[0];
    break;
  }
  return m;
}
static double fd_noise(const Graph &g, int i, const VectorXs &x) {
  // what finite differences make of rounding, in multiples of 1e-16
  const Node &n = g.n[i];
  double r = 1.;
  for (int j : n.kids)
    r = std::max(r, fd_noise(g, j, x));
  if (n.kind == Node::TOC1 || n.kind == Node::TOC2)
    r /= n.h;
  return r;
}
static VectorXs rval(const Graph &g, int i, const VectorXs &x) {
  const Node &n = g.n[i];
  switch (n.kind) {
  case Node::FN:
    return ref_fn(n.fs, g.sp).val(x);
  case Node::COST:
    return ref_cost(n.cs, g.sp).val(x);
  case Node::RESID: {
    VectorXs e = rval(g, n.kids[0], x), o(1);
    o[0] = 0.5 * e.dot(n.W * e) + n.slope.dot(e) + n.constant;
    return o;
  }
  case Node::SUM: {
    VectorXs o = VectorXs::Zero(1);
    for (size_t j = 0; j < n.kids.size(); j++)
      o += n.wts[j] * rval(g, n.kids[j], x);
    return o;
  }
  case Node::OUTER: {
    VectorXs y = rval(g, n.kids[0], x), o((long)n.outer.size());
    for (size_t r = 0; r < n.outer.size(); r++)
      o[(long)r] = n.outer[r].val(y);
    return o;
  }
  default:
    return rval(g, n.kids[0], x);
  }
}
static MatrixXs rjac(const Graph &g, int i, const VectorXs &x) {
  const Node &n = g.n[i];
  switch (n.kind) {
  case Node::FN:
    return ref_fn(n.fs, g.sp).jac(x);
  case Node::COST:
    return ref_cost(n.cs, g.sp).jac(x);
  case Node::RESID: {
    VectorXs e = rval(g, n.kids[0], x);
    return (rjac(g, n.kids[0], x).transpose() * (n.W * e + n.slope))
        .transpose();
  }
  case Node::SUM: {
    MatrixXs o = MatrixXs::Zero(1, g.sp.ndx());
    for (size_t j = 0; j < n.kids.size(); j++)
      o += n.wts[j] * rjac(g, n.kids[j], x);
    return o;
  }
  case Node::OUTER: {
    VectorXs y = rval(g, n.kids[0], x);
    MatrixXs o((long)n.outer.size(), y.size());
    for (size_t r = 0; r < n.outer.size(); r++)
      o.row((long)r) = n.outer[r].grad(y).transpose();
    return o * rjac(g, n.kids[0], x);
  }
  case Node::TOC1: {
    MatrixXs o(n.nr, g.sp.ndx());
    for (int k = 0; k < g.sp.ndx(); k++) {
      VectorXs e = VectorXs::Zero(g.sp.ndx());
      e[k] = n.h;
      o.col(k) = (rval(g, n.kids[0], g.sp.plus(x, e)) -
                  rval(g, n.kids[0], g.sp.plus(x, -e))) /
                 (2. * n.h);
    }
    return o;
  }
  default:
    return rjac(g, n.kids[0], x);
  }
}
static bool rvhp(const Graph &g, int i, const VectorXs &x, const VectorXs &v,
                 MatrixXs &H) {
  const Node &n = g.n[i];
  H = MatrixXs::Zero(g.sp.ndx(), g.sp.ndx());
  switch (n.kind) {
  case Node::FN: {
    Ref r = ref_fn(n.fs, g.sp);
    if (n.approx || !r.vhp)
      return false;
    H = r.vhp(x, v);
    return true;
  }
  case Node::COST: {
    Ref r = ref_cost(n.cs, g.sp);
    if (n.approx || !r.vhp)
      return false;
    H = r.vhp(x, v);
    return true;
  }
  case Node::RESID: {
    MatrixXs J = rjac(g, n.kids[0], x), K;
    H = J.transpose() * n.W * J;
    if (!n.gn) {
      if (!rvhp(g, n.kids[0], x, n.W * rval(g, n.kids[0], x) + n.slope, K))
        return false;
      H += K;
    }
    H *= v[0];
    return true;
  }
  case Node::SUM: {
    MatrixXs K;
    for (size_t j = 0; j < n.kids.size(); j++) {
      if (!rvhp(g, n.kids[j], x, VectorXs::Ones(1), K))
        return false;
      H += n.wts[j] * K;
    }
    H *= v[0];
    return true;
  }
  case Node::FROM_FN: {
    if (!rvhp(g, n.kids[0], x, VectorXs::Ones(1), H))
      return false;
    H *= v[0];
    return true;
  }
  case Node::TOC2:
    for (int k = 0; k < g.sp.ndx(); k++) {
      VectorXs e = VectorXs::Zero(g.sp.ndx());
      e[k] = n.h;
      H.col(k) = ((rjac(g, n.kids[0], g.sp.plus(x, e)) -
                   rjac(g, n.kids[0], g.sp.plus(x, -e))) /
                  (2. * n.h))
                     .transpose() *
                 v;
    }
    return true;
  default:
    return false; // not defined by the library beyond "none"
  }
}

static bool leaf_approx(const FnSpec &f) {
  return f.kind == FnSpec::FD || f.kind == FnSpec::COMPOSE;
}
static bool leaf_approx(const CostSpec &s) {
  if (s.kind == CostSpec::RESID || s.kind == CostSpec::FROM_FN)
    return leaf_approx(s.fn);
  for (auto &q : s.parts)
    if (leaf_approx(q))
      return true;
  return false;
}

static std::vector<Smooth> gen_outer(Ctx &c, int n, int nr) {
  // borrow the generator of closed forms on a flat space
  GenOpts o;
  std::vector<Smooth> r;
  SpaceSpec sp = flat_space(n);
  for (int t = 0; t < 60 && (int)r.size() < nr; t++) {
    FnSpec f = gen_fn(c, o, sp, nr);
    for (auto &q : f.f)
      if ((int)r.size() < nr && (q.a.size() == n))
        r.push_back(q);
  }
  while ((int)r.size() < nr) {
    Smooth s;
    s.a = VectorXs::Ones(n);
    r.push_back(s);
  }
  return r;
}

static Graph gen_graph(Ctx &c) {
  GenOpts o;
  o.max_n = 4;
  o.big = false;
  Graph g;
  g.sp = gen_space(c, o);
  int leaves = c.range(S_PROB, 2, 4), comp = c.range(S_PROB, 1, 4);
  for (int i = 0; i < leaves; i++) {
    Node n;
    if (i == 0 || (i > 1 && c.choose(S_PROB, 2))) {
      n.kind = Node::COST;
      n.is_cost = true;
      n.cs = gen_cost(c, o, g.sp);
      n.approx = leaf_approx(n.cs);
    } else {
      n.fs = gen_fn(c, o, g.sp, c.range(S_PROB, 1, 3));
      n.nr = n.fs.kind == FnSpec::DIFF ? g.sp.ndx() : n.fs.nr;
      n.approx = leaf_approx(n.fs);
    }
    g.n.push_back(n);
  }
  for (int i = 0; i < comp; i++) {
    std::vector<int> fns, costs, ones;
    for (int j = 0; j < (int)g.n.size(); j++) {
      if (g.n[j].c1)
        continue;
      fns.push_back(j);
      if (g.n[j].nr == 1)
        ones.push_back(j);
      if (g.n[j].is_cost)
        costs.push_back(j);
    }
    Node n;
    static const Node::Kind kinds[] = {Node::RESID, Node::SUM,     Node::RESID,
                                       Node::OUTER, Node::FROM_FN, Node::TOC2,
                                       Node::TOC1,  Node::SUM};
    n.kind = kinds[c.choose(S_PROB, 8)];
    auto pick = [&](const std::vector<int> &v) {
      int j = v[c.choose(S_PROB, (uint32_t)v.size())];
      g.n[j].used_by++;
      return j;
    };
    switch (n.kind) {
    case Node::RESID: {
      int j = pick(fns);
      n.kids = {j};
      n.is_cost = true;
      n.W = gen_spd(c, S_PROB, g.n[j].nr, c.choose(S_PROB, 3) ? 0.1 : 0.);
      n.slope = gen_vec(c, S_PROB, g.n[j].nr, 1.);
      n.constant = c.real(S_PROB, 2.);
      n.gn = c.choose(S_PROB, 2) == 0;
      break;
    }
    case Node::SUM: {
      n.is_cost = true;
      int k = c.range(S_PROB, 1, 3);
      for (int j = 0; j < k; j++) {
        n.kids.push_back(pick(costs));
        n.wts.push_back(c.real(S_PROB, 2.));
      }
      break;
    }
    case Node::FROM_FN:
      n.is_cost = true;
      n.kids = {pick(ones)};
      break;
    case Node::OUTER: {
      n.kids = {pick(fns)};
      n.nr = c.range(S_PROB, 1, 2);
      n.outer = gen_outer(c, g.n[n.kids[0]].nr, n.nr);
      break;
    }
    case Node::TOC2:
    case Node::TOC1:
      n.kids = {pick(fns)};
      n.nr = g.n[n.kids[0]].nr;
      n.c1 = n.kind == Node::TOC1;
      static const double hs[] = {1e-5, 1e-4, 1e-3};
      n.h = hs[c.choose(S_PROB, 3)];
      break;
    default:
      break;
    }
    g.n.push_back(n);
  }
  return g;
}

// ------------------------------------------------------------- buffers
// An output inside a larger matrix: what is around must not change.
struct OutBuf {
  MatrixXs big;
  long r, k, r0, c0;
  double mark;
  OutBuf(Ctx &c, long r, long k, double fill) : r(r), k(k) {
    r0 = c.choose(S_OPS, 2);
    c0 = c.choose(S_OPS, 2);
    mark = 123.25;
    big = MatrixXs::Constant(r + 2 * r0, k + 2 * c0, mark);
    big.block(r0, c0, r, k).setConstant(fill);
  }
  Eigen::Block<MatrixXs> ref() { return big.block(r0, c0, r, k); }
  bool intact() const {
    for (long j = 0; j < big.cols(); j++)
      for (long i = 0; i < big.rows(); i++)
        if (!(i >= r0 && i < r0 + r && j >= c0 && j < c0 + k) &&
            big(i, j) != mark)
          return false;
    return true;
  }
  MatrixXs get() const { return big.block(r0, c0, r, k); }
};
static bool mbits(const MatrixXs &a, const MatrixXs &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++)
      if (!same_bits(a(i, j), b(i, j)))
        return false;
  return true;
}
static std::string ms(const MatrixXs &m) {
  std::string s;
  for (long i = 0; i < m.rows() && i < 6; i++)
    s += vs(m.row(i).transpose());
  return s;
}
static void hm(Ctx &c, const MatrixXs &m) {
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++)
      c.hd(m(i, j));
}
static bool near(const MatrixXs &a, const MatrixXs &b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++) {
      if (a(i, j) != a(i, j) || b(i, j) != b(i, j)) {
        if (!(a(i, j) != a(i, j) && b(i, j) != b(i, j)))
          return false;
        continue;
      }
      if (!(std::abs(a(i, j) - b(i, j)) <= tol))
        return false;
    }
  return true;
}

enum What { VAL, JAC, VHP, CALL, GRAD, HESS, NWHAT };
static const char *const what_names[NWHAT] = {
    "operator()",  "computeJacobian", "vectorHessianProduct",
    "call",        "computeGradient", "computeHessian"};

static void eval_into(const Obj &o, What w, bool alloc_version,
                      const VectorXs &x, const VectorXs &v, MatrixRef out,
                      MatrixXs &ret) {
  switch (w) {
  case VAL:
    ret = (*o.c1)(x);
    break;
  case CALL:
    ret = MatrixXs::Constant(1, 1, o.cost->call(x));
    break;
  case JAC:
    if (alloc_version)
      ret = o.c1->computeJacobian(x);
    else
      o.c1->computeJacobian(x, out);
    break;
  case VHP:
    o.fn->vectorHessianProduct(x, v, out);
    break;
  case GRAD:
    if (alloc_version)
      ret = o.cost->computeGradient(x);
    else
      o.cost->computeGradient(x, out.col(0));
    break;
  case HESS:
    if (alloc_version)
      ret = o.cost->computeHessian(x);
    else
      o.cost->computeHessian(x, out);
    break;
  default:
    break;
  }
}
static bool returns(What w, bool alloc_version) {
  return w == VAL || w == CALL || (alloc_version && w != VHP);
}

struct Faulting {
  Task t;
  TaskGuard g;
  bool value = false, any = false;
  explicit Faulting() : g(&t) {
    t.on_fault = [this](Site, long, const Fault &f) {
      any = true;
      if (f.kind == F_NAN || f.kind == F_INF || f.kind == F_NAN_ONE)
        value = true;
    };
  }
};

static Fault gen_eval_fault(Ctx &c) {
  return gen_fault(c, FM_THROWS | FM_VALUES, (long)c.choose(S_FAULT, 8), 7);
}

// ------------------------------------------------------------- nodes
struct Lab {
  Ctx &c;
  Graph g;
  Keep keep;
  std::vector<Obj> objs;
  std::vector<VectorXs> pts;
  long faults = 0;

  explicit Lab(Ctx &c) : c(c), g(gen_graph(c)) {
    for (size_t i = 0; i < g.n.size(); i++)
      build(g, (int)i, keep, objs);
    int k = c.range(S_DATA, 2, 4);
    for (int i = 0; i < k; i++)
      pts.push_back(gen_point(c, S_DATA, g.sp, 2.));
  }

  void evaluate() {
    int i = (int)c.choose(S_OPS, (uint32_t)g.n.size());
    const Node &n = g.n[i];
    What w = (What)c.choose(S_OPS, n.c1 ? 2 : n.is_cost ? NWHAT : 3);
    bool av = c.choose(S_OPS, 4) == 3;
    const VectorXs x = pts[c.choose(S_OPS, (uint32_t)pts.size())];
    VectorXs v = gen_vec(c, S_DATA, n.nr, 2.);
    VectorXs xin = x, vin = v;
    long r = w == JAC ? n.nr : g.sp.ndx();
    long k = w == GRAD ? 1 : w == VAL || w == CALL ? 1 : g.sp.ndx();
    static const double fills[] = {0., kNaN, 1e300, -7.};
    OutBuf buf(c, r, k, fills[c.choose(S_OPS, 4)]);
    MatrixXs ret;
    Outcome o;
    bool bad = false, alloc_fired = false;
    {
      Faulting f;
      uint32_t what = c.choose(S_FAULT, 6);
      if (what == 4)
        f.t.faults.push_back(gen_eval_fault(c));
      if (what == 5) {
        AllocScope as;
        as.fail_at((long)c.choose(S_FAULT, 40));
        o = attempt([&] {
          auto blk = buf.ref();
          eval_into(objs[i], w, av, xin, vin, blk, ret);
          return UNINIT;
        });
        alloc_fired = as.fired();
        as.fail_at(-1);
      } else {
        o = attempt([&] {
          auto blk = buf.ref();
          eval_into(objs[i], w, av, xin, vin, blk, ret);
          return UNINIT;
        });
      }
      bad = f.any || alloc_fired;
    }
    c.log("node %d (%s) %s at %s%s -> %s", i, node_names[n.kind], what_names[w],
          vs(x).c_str(), bad ? " faulted" : "", outcome_name(o.kind));
    c.sh((uint64_t)n.kind * 64 + (uint64_t)w * 2 + bad);
    if (!bits(x, xin) || !bits(v, vin))
      c.fail("input-changed", "%s of node %d (%s) changed its input",
             what_names[w], i, node_names[n.kind]);
    if (!buf.intact())
      c.fail("output-spill", "%s of node %d (%s) wrote outside of its output",
             what_names[w], i, node_names[n.kind]);
    if (bad) {
      faults++;
      c.nontrivial = true;
      bool ok = o.kind == Outcome::RETURNED || o.kind == Outcome::RUNTIME ||
                o.kind == Outcome::LOGIC || o.kind == Outcome::OTHER_INJ ||
                (alloc_fired && o.kind == Outcome::BAD_ALLOC);
      if (!ok)
        c.fail("wrong-error", "%s of node %d under a fault: %s %s",
               what_names[w], i, outcome_name(o.kind), o.what.c_str());
      if (alloc_fired && o.kind == Outcome::RETURNED)
        c.fail("lost-error",
               "%s of node %d (%s) returned although an allocation failed",
               what_names[w], i, node_names[n.kind]);
      probe("evaluations that failed");
      return;
    }
    if (o.kind != Outcome::RETURNED)
      c.fail("unexpected-error", "%s of node %d (%s): %s %s", what_names[w], i,
             node_names[n.kind], outcome_name(o.kind), o.what.c_str());
    MatrixXs got = returns(w, av) ? ret : buf.get();
    hm(c, got);
    check(i, w, av, x, v, got, "after this history");
  }

  void check(int i, What w, bool av, const VectorXs &x, const VectorXs &v,
             const MatrixXs &got, const char *when) {
    const Node &n = g.n[i];
    // the same object, fresh
    {
      TaskGuard tg(nullptr);
      Keep k;
      std::vector<Obj> fresh;
      Obj o = build(g, i, k, fresh);
      long r = w == JAC ? n.nr : g.sp.ndx();
      long kk = w == GRAD ? 1 : w == VAL || w == CALL ? 1 : g.sp.ndx();
      MatrixXs b = MatrixXs::Zero(r, kk), ret;
      eval_into(o, w, av, x, v, b, ret);
      MatrixXs want = returns(w, av) ? ret : b;
      // evaluations into blocks may be summed in another order
      double ulp = 1e-10 * (1. + fd_noise(g, i, x) * 1e-3) *
                   (1. + (want.size() ? want.cwiseAbs().maxCoeff() : 0.));
      if (!(std::isfinite(ulp) ? near(got, want, ulp) : mbits(got, want)))
        c.fail("history",
               "%s of node %d (%s) at %s is %s %s, and %s from an object "
               "evaluated only there",
               what_names[w], i, node_names[n.kind], vs(x).c_str(),
               ms(got).c_str(), when, ms(want).c_str());
    }
    Mag m = rmag(g, i, x);
    double noise = fd_noise(g, i, x);
    MatrixXs want;
    double mag = 1.;
    switch (w) {
    case VAL:
    case CALL:
      want = rval(g, i, x);
      mag = m.v;
      break;
    case JAC:
      want = rjac(g, i, x);
      mag = m.j;
      if (noise > 1.) // differences of values
        mag = std::max(mag, m.v);
      break;
    case GRAD:
      want = rjac(g, i, x).transpose();
      mag = m.j;
      if (noise > 1.)
        mag = std::max(mag, m.v);
      break;
    default: {
      VectorXs vv = w == HESS ? VectorXs(VectorXs::Ones(1)) : v;
      if (!rvhp(g, i, x, vv, want))
        return;
      mag = (m.h + (noise > 1. ? m.v + m.j : 0.)) * (1. + infn(vv)) *
            (double)vv.size();
      break;
    }
    }
    if (!std::isfinite(mag))
      return;
    double tol = 1e-12 * noise * mag;
    if (tol > 1e-3 * mag)
      return; // differences of differences say nothing
    probe("results compared with the definition");
    if (!near(got, want, tol))
      c.fail("value",
             "%s of node %d (%s) at %s is %s; by definition it is %s "
             "(tolerance %.2g)",
             what_names[w], i, node_names[n.kind], vs(x).c_str(),
             ms(got).c_str(), ms(want).c_str(), tol);
  }

  // change a parameter through the library's own interface
  void mutate() {
    std::vector<int> can;
    for (int i = 0; i < (int)g.n.size(); i++) {
      const Node &n = g.n[i];
      if (n.kind == Node::RESID || n.kind == Node::SUM ||
          (n.kind == Node::COST && n.cs.kind == CostSpec::DIST) ||
          (n.kind == Node::FN &&
           (n.fs.kind == FnSpec::LINEAR || n.fs.kind == FnSpec::DIFF ||
            n.fs.kind == FnSpec::COST_AS_FN)))
        can.push_back(i);
    }
    if (can.empty())
      return;
    int i = can[c.choose(S_OPS, (uint32_t)can.size())];
    Node &n = g.n[i];
    c.sh(9000 + (uint64_t)n.kind);
    c.log("change node %d (%s)", i, node_names[n.kind]);
    probe("parameters changed");
    if (n.kind == Node::SUM) {
      auto *s = static_cast<Sum *>(objs[i].cost.get());
      uint32_t how = c.choose(S_OPS, 3);
      double a = c.real(S_OPS, 2.);
      if (how == 0) {
        *s *= a;
        for (auto &q : n.wts)
          q = a * q;
      } else if (how == 1) {
        long k = (long)c.choose(S_OPS, (uint32_t)n.wts.size());
        s->weights_[k] = a;
        n.wts[k] = a;
      } else if (n.kids.size() < 6) {
        int j = n.kids[c.choose(S_OPS, (uint32_t)n.kids.size())];
        s->addComponent(objs[j].cost, a);
        n.kids.push_back(j);
        n.wts.push_back(a);
      }
      return;
    }
    if (n.kind == Node::RESID) {
      auto *s = static_cast<Resid *>(objs[i].cost.get());
      switch (c.choose(S_OPS, 4)) {
      case 0:
        n.gn = !n.gn;
        s->gauss_newton_ = n.gn;
        break;
      case 1:
        n.W = gen_spd(c, S_DATA, (int)n.W.rows(), 0.1);
        s->weights_ = n.W;
        break;
      case 2:
        n.slope = gen_vec(c, S_DATA, (int)n.slope.size(), 1.);
        s->slope_ = n.slope;
        break;
      default:
        n.constant = c.real(S_DATA, 2.);
        s->constant_ = n.constant;
      }
      return;
    }
    if (n.kind == Node::COST || n.fs.kind == FnSpec::COST_AS_FN) {
      Dist *d;
      if (n.kind == Node::COST)
        d = static_cast<Dist *>(
            static_cast<SeamCost *>(objs[i].cost.get())->in.get());
      else
        d = static_cast<Dist *>(
            static_cast<SeamFn *>(objs[i].fn.get())->in.get());
      VectorXs t = gen_point(c, S_DATA, g.sp, 1.);
      if (c.choose(S_OPS, 2) == 0) {
        d->updateTarget(t);
        (n.kind == Node::COST ? n.cs.target : n.fs.target) = t;
        if (!bits(VectorXs(d->getTarget()), t))
          c.fail("target", "getTarget does not return the updated target");
      } else {
        MatrixXs W = gen_spd(c, S_DATA, g.sp.ndx(), 0.1);
        d->weights_ = W;
        (n.kind == Node::COST ? n.cs.W : n.fs.A) = W;
      }
      return;
    }
    Fn *in = static_cast<SeamFn *>(objs[i].fn.get())->in.get();
    if (n.fs.kind == FnSpec::LINEAR) {
      auto *l = static_cast<LinearFunctionTpl<double> *>(in);
      n.fs.b = gen_vec(c, S_DATA, (int)n.fs.b.size(), 1.);
      l->b = n.fs.b;
      if (c.choose(S_OPS, 2)) {
        n.fs.A = gen_mat(c, S_DATA, (int)n.fs.A.rows(), (int)n.fs.A.cols(), 1.);
        l->mat = n.fs.A;
      }
    } else {
      auto *l = static_cast<ManifoldDifferenceToPoint<double> *>(in);
      n.fs.target = gen_point(c, S_DATA, g.sp, 1.);
      l->target_ = n.fs.target;
    }
  }
};

// ------------------------------------------------------------- problem
struct ProbLab {
  Ctx &c;
  Lab &lab;
  std::vector<int> nodes; // constraint functions
  int cost = 0;
  std::vector<SetSpec> sets;
  std::unique_ptr<Problem> prob;
  std::unique_ptr<Workspace> ws;
  int total = 0;

  static std::unique_ptr<Problem> make(const Lab &lab, int cost,
                                       const std::vector<int> &nodes,
                                       const std::vector<SetSpec> &sets,
                                       const std::vector<Obj> &o) {
    std::vector<Cstr> cs;
    for (size_t i = 0; i < nodes.size(); i++)
      cs.emplace_back(o[nodes[i]].fn, build_set(sets[i]));
    return std::make_unique<Problem>(lab.g.sp.make(), o[cost].cost, cs);
  }
  ProbLab(Ctx &c, Lab &l) : c(c), lab(l) {
    std::vector<int> fns, costs;
    for (int j = 0; j < (int)lab.g.n.size(); j++) {
      if (lab.g.n[j].c1)
        continue;
      fns.push_back(j);
      if (lab.g.n[j].is_cost)
        costs.push_back(j);
    }
    cost = costs[c.choose(S_PROB, (uint32_t)costs.size())];
    int k = c.range(S_PROB, 1, 3);
    for (int i = 0; i < k; i++) {
      int j = fns[c.choose(S_PROB, (uint32_t)fns.size())];
      nodes.push_back(j);
      SetSpec s;
      uint32_t w = c.choose(S_PROB, 3);
      s.kind = w == 1 ? SetSpec::NEG : SetSpec::EQ;
      s.curved = w == 2;
      sets.push_back(s);
      total += lab.g.n[j].nr;
    }
    prob = make(lab, cost, nodes, sets, lab.objs);
    ws = std::make_unique<Workspace>(*prob, LDLTChoice::DENSE);
  }
  static std::vector<MatrixXs> fields(const Workspace &w) {
    std::vector<MatrixXs> f;
    f.push_back(MatrixXs::Constant(1, 1, w.objective_value));
    f.push_back(w.data_cstr_values);
    f.push_back(w.objective_gradient);
    f.push_back(w.data_jacobians);
    f.push_back(w.objective_hessian);
    f.push_back(w.data_hessians);
    return f;
  }
  void op() {
    static const char *const names[] = {"evaluate", "computeDerivatives",
                                        "computeHessians",
                                        "computeHessians(all)"};
    uint32_t what = c.choose(S_OPS, 4);
    VectorXs x = lab.pts[c.choose(S_OPS, (uint32_t)lab.pts.size())];
    VectorXs lam = gen_vec(c, S_DATA, total, 2.);
    ws->data_lams_pdal = lam;
    auto before = fields(*ws);
    auto call = [&](Problem &p, Workspace &w) {
      if (what == 0)
        p.evaluate(x, w);
      else if (what == 1)
        p.computeDerivatives(x, w);
      else
        p.computeHessians(x, w, what == 3);
    };
    bool bad;
    Outcome o;
    {
      Faulting f;
      if (c.choose(S_FAULT, 5) == 4)
        f.t.faults.push_back(gen_eval_fault(c));
      o = attempt([&] {
        call(*prob, *ws);
        return UNINIT;
      });
      bad = f.any;
    }
    c.sh(5000 + what * 2 + bad);
    c.log("problem %s at %s%s -> %s", names[what], vs(x).c_str(),
          bad ? " faulted" : "", outcome_name(o.kind));
    if (bad) {
      lab.faults++;
      c.nontrivial = true;
      return;
    }
    if (o.kind != Outcome::RETURNED)
      c.fail("unexpected-error", "problem %s: %s %s", names[what],
             outcome_name(o.kind), o.what.c_str());
    // fresh problem over fresh objects, fresh workspace
    Keep k;
    std::vector<Obj> fresh;
    for (size_t i = 0; i < lab.g.n.size(); i++)
      build(lab.g, (int)i, k, fresh);
    auto fp = make(lab, cost, nodes, sets, fresh);
    Workspace fw(*fp, LDLTChoice::DENSE);
    fw.data_lams_pdal = lam;
    {
      TaskGuard tg(nullptr);
      call(*fp, fw);
    }
    auto now = fields(*ws), want = fields(fw);
    for (size_t i = 0; i < now.size(); i++)
      hm(c, now[i]);
    auto same = [&](const MatrixXs &a, const MatrixXs &b, const char *f,
                    const char *why, bool strict = false) {
      double m = b.size() ? b.cwiseAbs().maxCoeff() : 0.;
      bool eq = strict || !std::isfinite(m) ? mbits(a, b)
                                            : near(a, b, 1e-10 * (1. + m));
      if (!eq)
        c.fail("workspace", "after problem %s at %s, %s is %s, %s %s",
               names[what], vs(x).c_str(), f, ms(a).c_str(), why,
               ms(b).c_str());
    };
    static const char *const fn[] = {"objective_value",    "cstr_values",
                                     "objective_gradient", "cstr_jacobians",
                                     "objective_hessian",  "hessian products"};
    for (size_t f = 0; f < now.size(); f++) {
      bool owned = (what == 0 && f < 2) || (what == 1 && (f == 2 || f == 3)) ||
                   (what >= 2 && f >= 4);
      if (!owned)
        same(now[f], before[f], fn[f], "before it was", true);
      else if (f != 5)
        same(now[f], want[f], fn[f], "on a fresh problem it is");
    }
    int r0 = 0;
    for (size_t i = 0; i < nodes.size(); i++) {
      int nr = lab.g.n[nodes[i]].nr;
      if (what >= 2) {
        bool used = what == 3 || sets[i].curved;
        if (used)
          same(MatrixXs(ws->cstr_vector_hessian_prod[i]),
               MatrixXs(fw.cstr_vector_hessian_prod[i]), fn[5],
               "on a fresh problem it is");
      }
      // and what the problem says is what its constraints say
      if (what == 0)
        lab.check(nodes[i], VAL, false, x, VectorXs::Ones(nr),
                  MatrixXs(ws->data_cstr_values.segment(r0, nr)),
                  "in the workspace");
      if (what == 1)
        lab.check(nodes[i], JAC, false, x, VectorXs::Ones(nr),
                  MatrixXs(ws->data_jacobians.middleRows(r0, nr)),
                  "in the workspace");
      if (what >= 2 && (what == 3 || sets[i].curved))
        lab.check(nodes[i], VHP, false, x, lam.segment(r0, nr),
                  MatrixXs(ws->cstr_vector_hessian_prod[i]),
                  "in the workspace");
      r0 += nr;
    }
    probe("problem evaluations compared");
  }
};

// ------------------------------------------------------------- sets
static void set_slopes(const SetSpec &s, const VectorXs &z, double mu,
                       std::vector<int> &d) { // 0, 1 or -1: on a kink
  long n = z.size();
  switch (s.kind) {
  case SetSpec::EQ:
    for (long i = 0; i < n; i++)
      d.push_back(0);
    break;
  case SetSpec::NEG:
    for (long i = 0; i < n; i++)
      d.push_back(z[i] == 0. ? -1 : z[i] < 0.);
    break;
  case SetSpec::BOX:
    for (long i = 0; i < n; i++)
      d.push_back(z[i] == s.lo[i] || z[i] == s.hi[i]
                      ? -1
                      : z[i] > s.lo[i] && z[i] < s.hi[i]);
    break;
  case SetSpec::L1:
    for (long i = 0; i < n; i++)
      d.push_back(std::abs(std::abs(z[i]) - mu) < 1e-12 ? -1
                                                        : std::abs(z[i]) > mu);
    break;
  case SetSpec::PROD: {
    long k = 0;
    for (size_t i = 0; i < s.parts.size(); i++) {
      set_slopes(s.parts[i], z.segment(k, s.sizes[i]), mu, d);
      k += s.sizes[i];
    }
    break;
  }
  }
}
struct SetLab {
  Ctx &c;
  struct One {
    SetSpec s;
    int n;
    polymorphic<Set> set;
    double mu;
  };
  std::vector<One> all;
  explicit SetLab(Ctx &c, Lab &l) : c(c) {
    GenOpts o;
    int k = c.range(S_PROB, 1, 3);
    for (int i = 0; i < k; i++) {
      CstrSpec q = gen_cstr(c, o, l.g.sp, gen_point(c, S_DATA, l.g.sp, 1.));
      int n = q.fn.kind == FnSpec::DIFF ? l.g.sp.ndx() : q.fn.nr;
      double mu = c.pos(S_DATA, 1e-3, 10.);
      all.push_back({q.set, n, build_set(q.set), mu});
      all.back().set->setProxParameter(mu);
    }
    { // a product of several sets of unequal sizes, possibly nested
      SetSpec s;
      s.kind = SetSpec::PROD;
      bool anch;
      int n = 0, parts = c.range(S_PROB, 1, 5);
      for (int i = 0; i < parts; i++) {
        int m = c.range(S_PROB, 1, 4);
        s.sizes.push_back(m);
        s.parts.push_back(gen_set(c, o, m, 1, anch));
        n += m;
      }
      double mu = c.pos(S_DATA, 1e-3, 10.);
      all.push_back({s, n, build_set(s), mu});
      all.back().set->setProxParameter(mu);
    }
  }
  void op() {
    One &a = all[c.choose(S_OPS, (uint32_t)all.size())];
    uint32_t what = c.choose(S_OPS, 9);
    VectorXs z = gen_vec(c, S_DATA, a.n, 3.);
    VectorXs zin = z;
    c.sh(7000 + what + 16 * (uint64_t)a.s.kind);
    double mu = a.mu;
    VectorXs p = ref_prox(a.s, z, mu);
    double tol = 1e-12 * (10. + infn(z) + mu);
    auto bad = [&](const char *f, const MatrixXs &got, const MatrixXs &want) {
      c.fail("set", "%s at %s with mu=%g gives %s, expected %s", f,
             vs(z).c_str(), mu, ms(got).c_str(), ms(want).c_str());
    };
    auto spill = [&](const OutBuf &b, const char *f) {
      if (!b.intact())
        c.fail("output-spill", "%s wrote outside of its output", f);
      if (!bits(z, zin))
        c.fail("input-changed", "%s changed its input", f);
    };
    std::vector<int> d;
    set_slopes(a.s, z, mu, d);
    switch (what) {
    case 0: {
      a.mu = c.pos(S_DATA, 1e-3, 10.);
      a.set->setProxParameter(a.mu);
      c.log("set mu %g", a.mu);
      break;
    }
    case 1:
    case 2: {
      OutBuf b(c, a.n, 1, kNaN);
      auto blk = b.ref();
      if (what == 1)
        a.set->projection(zin, blk.col(0));
      else
        a.set->normalConeProjection(zin, blk.col(0));
      VectorXs want = what == 1 ? p : VectorXs(z - p);
      hm(c, b.get());
      spill(b, "a projection");
      if (!near(b.get(), want, tol))
        bad(what == 1 ? "projection" : "normalConeProjection", b.get(), want);
      break;
    }
    case 3:
    case 4: {
      long k = c.range(S_DATA, 1, 4);
      MatrixXs J = gen_mat(c, S_DATA, a.n, (int)k, 2.);
      OutBuf b(c, a.n, k, 0.);
      b.ref() = J;
      if (what == 3)
        a.set->applyProjectionJacobian(zin, b.ref());
      else
        a.set->applyNormalConeProjectionJacobian(zin, b.ref());
      spill(b, "a projection Jacobian");
      MatrixXs got = b.get(), want = got;
      for (long i = 0; i < a.n; i++) {
        double on = what == 3 ? d[i] : 1 - d[i];
        if (d[i] >= 0)
          for (long j = 0; j < k; j++)
            want(i, j) = on * J(i, j);
      }
      hm(c, got);
      if (!near(got, want, 0.))
        bad(what == 3 ? "applyProjectionJacobian"
                      : "applyNormalConeProjectionJacobian",
            got, want);
      break;
    }
    case 5: {
      Set::ActiveType act(a.n);
      act.setConstant(c.choose(S_OPS, 2) == 1);
      a.set->computeActiveSet(zin, act);
      for (long i = 0; i < a.n; i++) {
        c.h(act[i]);
        if (d[i] >= 0 && act[i] != (d[i] == 0))
          c.fail("set",
                 "computeActiveSet at %s with mu=%g calls component %ld %s",
                 vs(z).c_str(), mu, i, act[i] ? "active" : "inactive");
      }
      break;
    }
    case 6: {
      double got = a.set->evaluate(p), want = ref_set_value(a.s, p);
      c.hd(got);
      if (!(std::abs(got - want) <= tol * (double)a.n))
        bad("evaluate", MatrixXs::Constant(1, 1, got),
            MatrixXs::Constant(1, 1, want));
      break;
    }
    default: {
      OutBuf b(c, a.n, 1, kNaN);
      auto blk = b.ref();
      double got = a.set->computeMoreauEnvelope(zin, blk.col(0));
      if (what == 8)
        got = a.set->evaluateMoreauEnvelope(zin, b.get().col(0));
      spill(b, "computeMoreauEnvelope");
      double want =
          ref_set_value(a.s, p) + 0.5 / mu * (z - p).squaredNorm();
      c.hd(got);
      if (!near(b.get(), VectorXs(z - p), tol))
        bad("computeMoreauEnvelope (output)", b.get(), VectorXs(z - p));
      if (!(std::abs(got - want) <=
            1e-10 * (1. + std::abs(want)) * (double)a.n))
        bad("computeMoreauEnvelope", MatrixXs::Constant(1, 1, got),
            MatrixXs::Constant(1, 1, want));
      if (a.set->mu() != mu || a.set->mu_inv() != 1. / mu)
        c.fail("set", "the set no longer has the parameter it was given");
      break;
    }
    }
    probe("set operations compared");
  }
};

// ------------------------------------------------------------- spaces
static void space_op(Ctx &c, Lab &l, const polymorphic<Manifold> &sp) {
  uint32_t what = c.choose(S_OPS, 8);
  const SpaceSpec &s = l.g.sp;
  auto pick = [&] { return l.pts[c.choose(S_OPS, (uint32_t)l.pts.size())]; };
  VectorXs x = pick(), y = pick(), v = gen_vec(c, S_DATA, s.ndx(), 2.);
  VectorXs x0 = x, y0 = y, v0 = v;
  int nd = s.ndx();
  int arg = (int)c.choose(S_OPS, 2);
  double u = c.pos(S_DATA, 0., 1.);
  bool av = c.choose(S_OPS, 2) == 1;
  c.sh(3000 + what);
  const MatrixXs I = MatrixXs::Identity(nd, nd);
  auto cmp = [&](const char *f, const MatrixXs &got, const MatrixXs &want) {
    hm(c, got);
    if (!near(got, want, 1e-11))
      c.fail("space", "%s of %s %s %s gives %s, expected %s", f, vs(x).c_str(),
             vs(y).c_str(), vs(v).c_str(), ms(got).c_str(), ms(want).c_str());
  };
  bool spilled = false;
  auto vec = [&](int n, std::function<void(VectorRef)> f) {
    OutBuf b(c, n, 1, kNaN);
    auto blk = b.ref();
    f(blk.col(0));
    spilled |= !b.intact();
    return b.get();
  };
  auto mat = [&](std::function<void(MatrixRef)> f) {
    OutBuf b(c, nd, nd, kNaN);
    f(b.ref());
    spilled |= !b.intact();
    return b.get();
  };
  switch (what) {
  case 0: {
    MatrixXs r = av ? MatrixXs(sp->integrate(x, v))
                    : vec(s.nx(), [&](VectorRef o) { sp->integrate(x, v, o); });
    cmp("integrate", r, s.plus(x, v));
    break;
  }
  case 1: {
    MatrixXs r = av ? MatrixXs(sp->difference(x, y))
                    : vec(nd, [&](VectorRef o) { sp->difference(x, y, o); });
    cmp("difference", r, s.minus(y, x));
    break;
  }
  case 2:
    cmp("Jintegrate",
        mat([&](MatrixRef J) { sp->Jintegrate(x, v, J, arg); }), I);
    break;
  case 3:
    cmp("Jdifference",
        mat([&](MatrixRef J) { sp->Jdifference(x, y, J, arg); }),
        arg == 0 ? MatrixXs(-I) : I);
    break;
  case 4: {
    MatrixXs r =
        av ? MatrixXs(sp->interpolate(x, y, u))
           : vec(s.nx(), [&](VectorRef o) { sp->interpolate(x, y, u, o); });
    cmp("interpolate", r, s.plus(x, u * s.minus(y, x)));
    break;
  }
  case 5: {
    MatrixXs A = gen_mat(c, S_DATA, nd, 3, 2.);
    MatrixXs B = A;
    sp->JintegrateTransport(x, v, B, arg);
    cmp("JintegrateTransport", B, A);
    break;
  }
  case 6: {
    VectorXs n = sp->neutral();
    if (n.size() != s.nx() || !on_space(s, n, 1e-12))
      c.fail("space", "neutral() is not on the space");
    // going there and back
    VectorXs d = sp->difference(n, x);
    cmp("integrate(neutral, difference(neutral, .))", sp->integrate(n, d), x);
    break;
  }
  default: {
    // there and back, in place
    VectorXs d = sp->difference(x, y);
    VectorXs r = sp->integrate(x, d);
    cmp("integrate(x, difference(x, y))", r, y);
    if (!on_space(s, sp->rand(), 1e-9))
      c.fail("space", "rand() is not on the space");
    break;
  }
  }
  if (spilled)
    c.fail("output-spill", "a space wrote outside of its output");
  if (!bits(x, x0) || !bits(y, y0) || !bits(v, v0))
    c.fail("input-changed", "a space changed its input");
  probe("space operations compared");
}

// ------------------------------------------------------- products of spaces
using Product = CartesianProductTpl<double>;
static SpaceSpec one_block(const BlockSpec &b) {
  SpaceSpec s;
  s.blocks.push_back(b);
  return s;
}
// the product of the blocks of a space, made in one of the ways there are
static Product gen_product(Ctx &c, const SpaceSpec &s) {
  std::vector<polymorphic<Manifold>> v;
  for (auto &b : s.blocks)
    v.push_back(one_block(b).make());
  switch (c.choose(S_OPS, 5)) {
  case 0:
    return Product(v);
  case 1:
    if (v.size() == 2)
      return Product(v[0], v[1]);
    if (v.size() == 2 || v.size() == 1) {
      if (v.size() == 1)
        return Product{v[0]};
      return Product{v[0], v[1]};
    }
    if (v.size() == 3)
      return Product{v[0], v[1], v[2]};
    return Product(v);
  case 2: {
    Product p;
    for (auto &q : v)
      p.addComponent(q);
    return p;
  }
  case 3: { // two halves put together
    Product p, q;
    std::size_t cut = c.choose(S_OPS, (uint32_t)v.size() + 1);
    for (std::size_t i = 0; i < v.size(); i++)
      (i < cut ? p : q).addComponent(v[i]);
    p.addComponent(q);
    return p;
  }
  default: {
    if (v.size() < 2)
      return Product(v);
    Product p = v[0] * v[1];
    for (std::size_t i = 2; i < v.size(); i++)
      p = p * v[i];
    return p;
  }
  }
}
static void product_op(Ctx &c, Lab &l) {
  const SpaceSpec &s = l.g.sp;
  c.sh(3100);
  Product p = gen_product(c, s);
  std::size_t nb = s.blocks.size();
  if (p.numComponents() != nb || p.nx() != s.nx() || p.ndx() != s.ndx())
    c.fail("space", "a product of %zu spaces has %zu parts and sizes %d, %d",
           nb, p.numComponents(), p.nx(), p.ndx());
  if (p.tangentSpace().nx() != s.ndx() || p.tangentSpace().ndx() != s.ndx())
    c.fail("space", "the tangent space has the wrong size");
  for (std::size_t i = 0; i < nb; i++)
    if (p.getComponent(i).nx() != s.blocks[i].nx() ||
        p.getComponent(i).ndx() != s.blocks[i].ndx())
      c.fail("space", "part %zu of a product is another space", i);
  VectorXs x = l.pts[c.choose(S_OPS, (uint32_t)l.pts.size())];
  VectorXs v = gen_vec(c, S_DATA, s.ndx(), 2.);
  // in pieces, and together again
  for (int tangent = 0; tangent < 2; tangent++) {
    VectorXs w = tangent ? v : x, w0 = w;
    const VectorXs &cw = w;
    auto parts = tangent ? p.split_vector(ConstVectorRef(cw))
                         : p.split(ConstVectorRef(cw));
    if (parts.size() != nb)
      c.fail("space", "%s gives %zu pieces", tangent ? "split_vector" : "split",
             parts.size());
    std::vector<VectorXs> copies;
    long at = 0;
    for (std::size_t i = 0; i < nb; i++) {
      long k = tangent ? s.blocks[i].ndx() : s.blocks[i].nx();
      if (!bits(parts[i], w0.segment(at, k)))
        c.fail("space", "piece %zu of %s", i,
               tangent ? "split_vector" : "split");
      copies.push_back(parts[i]);
      at += k;
    }
    if (!bits(tangent ? p.merge_vector(copies) : p.merge(copies), w0))
      c.fail("space", "%s does not undo the split",
             tangent ? "merge_vector" : "merge");
    std::size_t i = c.choose(S_OPS, (uint32_t)nb);
    auto wr = tangent ? p.split_vector(VectorRef(w)) : p.split(VectorRef(w));
    wr[i].setConstant(5.5);
    at = 0;
    for (std::size_t q = 0; q < nb; q++) {
      long k = tangent ? s.blocks[q].ndx() : s.blocks[q].nx();
      VectorXs want =
          q == i ? VectorXs(VectorXs::Constant(k, 5.5)) : w0.segment(at, k);
      if (!bits(w.segment(at, k), want))
        c.fail("space", "writing to piece %zu changed piece %zu", i, q);
      at += k;
    }
  }
  // a point is on the product when each piece is on its space
  VectorXs y = x;
  if (c.choose(S_OPS, 2)) {
    uint32_t i = c.choose(S_OPS, (uint32_t)y.size());
    y[i] += c.choose(S_OPS, 2) ? 2.5 : 0.125;
  }
  bool on = on_space(s, y, 1e-6), off = !on_space(s, y, 1e-2);
  if ((on && !p.isNormalized(y)) || (off && p.isNormalized(y)))
    c.fail("space", "isNormalized(%s) is %d", vs(y).c_str(),
           (int)p.isNormalized(y));
  if (off)
    probe("point outside of a product of spaces");
  // and a residual towards a target off the space is refused
  if (on || off) {
    polymorphic<Manifold> pp(p);
    Outcome o = attempt([&] {
      ManifoldDifferenceToPoint<double> f(pp, y);
      return UNINIT;
    });
    bool refused = o.kind == Outcome::LIB_ERROR;
    if ((!refused && o.kind != Outcome::RETURNED) || refused != off)
      c.fail("refusal", "a target %s the space: %s", off ? "off" : "on",
             outcome_name(o.kind));
  }
  probe("product of spaces taken apart");
}

// ------------------------------------------- defaults and refused arguments
static void default_op(Ctx &c, Lab &l) {
  const SpaceSpec &s = l.g.sp;
  std::vector<int> costs, wide;
  for (int i = 0; i < (int)l.g.n.size(); i++) {
    if (l.g.n[i].is_cost)
      costs.push_back(i);
    else if (!l.g.n[i].c1 && l.g.n[i].nr != 1)
      wide.push_back(i);
  }
  VectorXs x = l.pts[c.choose(S_OPS, (uint32_t)l.pts.size())];
  VectorXs t = l.pts[c.choose(S_OPS, (uint32_t)l.pts.size())];
  auto pick = [&](std::vector<int> &v) {
    return v[c.choose(S_OPS, (uint32_t)v.size())];
  };
  auto cmp = [&](const char *f, const Cost &a, double v, const VectorXs &g,
                 const MatrixXs *H) {
    double gv = a.call(x);
    VectorXs gg = a.computeGradient(x);
    auto tol = [](double m) { return 1e-11 * (1. + m); };
    c.hd(gv);
    if (a.nr() != 1 || a.nx() != s.nx() || a.ndx() != s.ndx())
      c.fail("defaults", "%s: sizes %d %d %d", f, a.nx(), a.ndx(), a.nr());
    if (std::isfinite(v) && !(std::abs(gv - v) <= tol(std::abs(v))))
      c.fail("defaults", "%s: value %g, expected %g", f, gv, v);
    if (g.allFinite() && !near(gg, g, tol(g.cwiseAbs().maxCoeff())))
      c.fail("defaults", "%s: gradient %s, expected %s", f, vs(gg).c_str(),
             vs(g).c_str());
    if (H && H->allFinite() &&
        !near(a.computeHessian(x), *H, tol(H->cwiseAbs().maxCoeff())))
      c.fail("defaults", "%s: Hessian", f);
  };
  uint32_t what = c.choose(S_OPS, 8);
  c.sh(3200 + what);
  switch (what) {
  case 0: { // weight of a component
    shared_ptr<Cost> a = l.objs[pick(costs)].cost;
    Sum q(s.nx(), s.ndx());
    bool plus = c.choose(S_OPS, 2);
    if (plus)
      q += a;
    else
      q.addComponent(a);
    MatrixXs H = a->computeHessian(x);
    cmp("component without weight", q, a->call(x), a->computeGradient(x), &H);
    break;
  }
  case 1: { // a sum given at once
    std::vector<shared_ptr<Cost>> v;
    std::vector<double> w;
    double val = 0.;
    VectorXs g = VectorXs::Zero(s.ndx());
    MatrixXs H = MatrixXs::Zero(s.ndx(), s.ndx());
    double mag = 0.;
    for (int k = c.range(S_OPS, 0, 3); k > 0; k--) {
      v.push_back(l.objs[pick(costs)].cost);
      w.push_back(c.real(S_DATA, 2.));
      val += w.back() * v.back()->call(x);
      g += w.back() * v.back()->computeGradient(x);
      H += w.back() * v.back()->computeHessian(x);
      mag += std::abs(w.back()) * (std::abs(v.back()->call(x)) +
                                   v.back()->computeHessian(x).norm() +
                                   v.back()->computeGradient(x).norm());
    }
    Sum q(s.nx(), s.ndx(), v, w);
    if (q.numComponents() != v.size())
      c.fail("defaults", "a sum of %zu has %zu parts", v.size(),
             q.numComponents());
    if (mag < 1e4)
      cmp("sum given at once", q, val, g, &H);
    break;
  }
  case 2: { // distance without weights, without target
    polymorphic<Manifold> sp = s.make();
    bool no_target = c.choose(S_OPS, 2);
    std::unique_ptr<Dist> d(no_target ? new Dist(sp) : new Dist(sp, t));
    VectorXs to = no_target ? sp->neutral() : t;
    if (!bits(d->getTarget(), to))
      c.fail("defaults", "the target of a distance is %s",
             vs(d->getTarget()).c_str());
    VectorXs e = s.minus(x, to);
    MatrixXs H = MatrixXs::Identity(s.ndx(), s.ndx());
    cmp("unweighted distance", *d, 0.5 * e.squaredNorm(), e, &H);
    d->updateTarget(x);
    cmp("distance to itself", *d, 0., VectorXs::Zero(s.ndx()), &H);
    break;
  }
  case 6:
  case 7: { // an expression of costs
    std::vector<std::pair<shared_ptr<Cost>, double>> terms;
    shared_ptr<Sum> e;
    auto cost = [&] { return l.objs[pick(costs)].cost; };
    auto scale = [&](double w) {
      for (auto &t : terms)
        t.second *= w;
    };
    if (c.choose(S_OPS, 2)) {
      shared_ptr<Cost> a = cost(), b = cost();
      e = a + b;
      terms = {{a, 1.}, {b, 1.}};
    } else {
      double w = c.real(S_DATA, 2.);
      shared_ptr<Cost> a = cost();
      e = w * a;
      terms = {{a, w}};
    }
    shared_ptr<Sum> before; // stays what it was
    std::vector<double> was;
    for (int k = c.range(S_OPS, 0, 4); k > 0; k--) {
      double w = c.real(S_DATA, 2.);
      before = e;
      was = e->weights_;
      switch (c.choose(S_OPS, 8)) {
      case 0:
        e = (*e) * w;
        scale(w);
        break;
      case 1:
        e = w * (*e);
        scale(w);
        break;
      case 2:
        e = -(*e);
        scale(-1.);
        break;
      case 3:
        e = e->clone();
        before.reset();
        break;
      case 4: { // added to a temporary
        shared_ptr<Cost> a = cost();
        before.reset();
        e = std::move(e) + a;
        terms.push_back({a, 1.});
        break;
      }
      case 5: {
        shared_ptr<Cost> a = cost();
        shared_ptr<Sum> q = w * a;
        before.reset();
        *e += *q;
        terms.push_back({a, w});
        break;
      }
      case 6:
        before.reset();
        *e *= w;
        scale(w);
        break;
      default: { // a sum is a cost itself
        shared_ptr<Cost> a = e, b = cost();
        before = e;
        e = b + a;
        terms = {{b, 1.}, {a, 1.}};
        break;
      }
      }
      if (before && (before->weights_ != was ||
                     before->components_.size() != was.size()))
        c.fail("defaults", "an expression of costs changed its operand");
    }
    double val = 0., mag = 0.;
    VectorXs g = VectorXs::Zero(s.ndx());
    MatrixXs H = MatrixXs::Zero(s.ndx(), s.ndx());
    for (auto &t : terms) {
      val += t.second * t.first->call(x);
      g += t.second * t.first->computeGradient(x);
      H += t.second * t.first->computeHessian(x);
      mag += std::abs(t.second) * (std::abs(t.first->call(x)) +
                                   t.first->computeGradient(x).norm() +
                                   t.first->computeHessian(x).norm());
    }
    if (e->numComponents() != terms.size())
      c.fail("defaults", "an expression of %zu costs has %zu", terms.size(),
             e->numComponents());
    if (mag < 1e4)
      cmp("expression of costs", *e, val, g, &H);
    std::ostringstream os;
    os << *e;
    std::string want =
        "num_components=" + std::to_string(terms.size()) + ", weights=(";
    if (os.str().find(want) == std::string::npos)
      c.fail("defaults", "a sum of %zu costs prints %s", terms.size(),
             os.str().c_str());
    break;
  }
  case 3: { // a function of several values is not a cost
    if (wide.empty())
      break;
    shared_ptr<Fn> f = l.objs[pick(wide)].fn;
    Outcome o = attempt([&] {
      downcast_function_to_cost<double>(f);
      return UNINIT;
    });
    if (o.kind != Outcome::LIB_ERROR)
      c.fail("refusal", "a function of %d values as a cost: %s", f->nr(),
             outcome_name(o.kind));
    break;
  }
  case 4: { // functions that do not fit
    shared_ptr<Fn> f = l.objs[pick(costs)].fn;
    int n = c.range(S_OPS, 1, 4), m = c.range(S_OPS, 1, 3);
    MatrixXs A = gen_mat(c, S_DATA, m, n, 2.);
    VectorXs b = gen_vec(c, S_DATA, m, 2.);
    bool with_b = c.choose(S_OPS, 2);
    shared_ptr<Fn> g =
        with_b ? std::make_shared<LinearFunctionTpl<double>>(A, b)
               : std::make_shared<LinearFunctionTpl<double>>(A);
    if (!with_b)
      b.setZero();
    if (g->nx() != n || g->ndx() != n || g->nr() != m)
      c.fail("defaults", "a linear function has the wrong sizes");
    shared_ptr<Fn> h;
    Outcome o = attempt([&] {
      h = compose<double>(g, f);
      return UNINIT;
    });
    if (n != 1 ? o.kind != Outcome::LIB_ERROR
               : o.kind != Outcome::RETURNED)
      c.fail("refusal", "function of %d values after one that gives 1: %s", n,
             outcome_name(o.kind));
    if (h) {
      VectorXs want = A * (*f)(x) + b;
      MatrixXs J = A * f->computeJacobian(x);
      if (want.allFinite() &&
          !near((*h)(x), want, 1e-11 * (1. + want.cwiseAbs().maxCoeff())))
        c.fail("defaults", "linear function: %s", vs((*h)(x)).c_str());
      if (J.allFinite() && !near(h->computeJacobian(x), J,
                                 1e-11 * (1. + J.cwiseAbs().maxCoeff())))
        c.fail("defaults", "Jacobian of a linear function");
    }
    break;
  }
  default: { // as many sizes as sets
    using Set = polymorphic<ConstraintSetTpl<double>>;
    std::vector<Set> v;
    std::vector<Eigen::Index> sz;
    for (int k = c.range(S_OPS, 0, 3); k > 0; k--)
      v.push_back(Set(EqualityConstraintTpl<double>()));
    for (int k = c.range(S_OPS, 0, 3); k > 0; k--)
      sz.push_back(2);
    Outcome o = attempt([&] {
      ConstraintSetProductTpl<double> q(v, sz);
      if (q.components().size() != v.size() || q.blockSizes() != sz)
        c.fail("defaults", "a product of sets has other parts");
      return UNINIT;
    });
    if ((o.kind == Outcome::LIB_ERROR) != (v.size() != sz.size()) ||
        (o.kind != Outcome::LIB_ERROR && o.kind != Outcome::RETURNED))
      c.fail("refusal", "%zu sets with %zu sizes: %s", v.size(), sz.size(),
             outcome_name(o.kind));
    break;
  }
  }
  probe("defaults and refusals compared");
}

static void run(Ctx &c) {
  Lab lab(c);
  ProbLab pl(c, lab);
  SetLab sl(c, lab);
  polymorphic<Manifold> sp = lab.g.sp.make();
  int n = c.range(S_OPS, 6, c.thorough ? 60 : 40);
  for (int i = 0; i < n; i++) {
    uint32_t k = c.choose(S_OPS, 14);
    if (k < 5)
      lab.evaluate();
    else if (k < 7)
      pl.op();
    else if (k < 9)
      lab.mutate();
    else if (k < 11)
      sl.op();
    else if (k < 12)
      space_op(c, lab, sp);
    else if (k < 13)
      product_op(c, lab);
    else
      default_op(c, lab);
  }
}

Registered sim::the_scenario = {
    "C14", run,
    "a case is a history of evaluations of costs, functions, constraint sets, "
    "spaces and problems at several points, between which parameters change and "
    "evaluations fail; non-trivial when a fault struck an evaluation; distinct "
    "by the sequence of (object, operation, fault)"};
