#include "world.hpp"

namespace w {

// ------------------------------------------------------------------ spaces
VectorXs SpaceSpec::plus(const VectorXs &x, const VectorXs &v) const {
  VectorXs o(nx());
  long q = 0, t = 0;
  for (auto &b : blocks) {
    switch (b.kind) {
    case BlockSpec::RN:
    case BlockSpec::TRN:
      o.segment(q, b.nx()) = x.segment(q, b.nx()) + v.segment(t, b.ndx());
      break;
    default: {
      double s = std::sin(v[t]), c = std::cos(v[t]);
      o[q] = c * x[q] - s * x[q + 1];
      o[q + 1] = s * x[q] + c * x[q + 1];
      if (b.kind == BlockSpec::TS1)
        o[q + 2] = x[q + 2] + v[t + 1];
    }
    }
    q += b.nx();
    t += b.ndx();
  }
  return o;
}
VectorXs SpaceSpec::minus(const VectorXs &x1, const VectorXs &x0) const {
  VectorXs o(ndx());
  long q = 0, t = 0;
  for (auto &b : blocks) {
    switch (b.kind) {
    case BlockSpec::RN:
    case BlockSpec::TRN:
      o.segment(t, b.ndx()) = x1.segment(q, b.nx()) - x0.segment(q, b.nx());
      break;
    default:
      o[t] = std::atan2(x0[q] * x1[q + 1] - x0[q + 1] * x1[q],
                        x0[q] * x1[q] + x0[q + 1] * x1[q + 1]);
      if (b.kind == BlockSpec::TS1)
        o[t + 1] = x1[q + 2] - x0[q + 2];
    }
    q += b.nx();
    t += b.ndx();
  }
  return o;
}
MatrixXs SpaceSpec::tangent(const VectorXs &x) const {
  MatrixXs T = MatrixXs::Zero(nx(), ndx());
  long q = 0, t = 0;
  for (auto &b : blocks) {
    switch (b.kind) {
    case BlockSpec::RN:
    case BlockSpec::TRN:
      for (int i = 0; i < b.nx(); i++)
        T(q + i, t + i) = 1.;
      break;
    default:
      T(q, t) = -x[q + 1];
      T(q + 1, t) = x[q];
      if (b.kind == BlockSpec::TS1)
        T(q + 2, t + 1) = 1.;
    }
    q += b.nx();
    t += b.ndx();
  }
  return T;
}
MatrixXs SpaceSpec::curvature(const VectorXs &x, const VectorXs &g) const {
  MatrixXs H = MatrixXs::Zero(ndx(), ndx());
  long q = 0, t = 0;
  for (auto &b : blocks) {
    if (b.kind == BlockSpec::S1 || b.kind == BlockSpec::TS1)
      H(t, t) = -(g[q] * x[q] + g[q + 1] * x[q + 1]);
    q += b.nx();
    t += b.ndx();
  }
  return H;
}
static polymorphic<Manifold> make_block(const BlockSpec &b) {
  switch (b.kind) {
  case BlockSpec::RN:
    return polymorphic<Manifold>(VectorSpaceTpl<double>(b.n));
  case BlockSpec::S1:
    return polymorphic<Manifold>(S1Space());
  case BlockSpec::TRN:
    return polymorphic<Manifold>(
        TangentBundleTpl<VectorSpaceTpl<double>>(VectorSpaceTpl<double>(b.n)));
  default:
    return polymorphic<Manifold>(TangentBundleTpl<S1Space>(S1Space()));
  }
}
polymorphic<Manifold> SpaceSpec::make() const {
  if (blocks.size() == 1)
    return make_block(blocks[0]);
  CartesianProductTpl<double> p;
  for (auto &b : blocks)
    p.addComponent(make_block(b));
  return polymorphic<Manifold>(p);
}

// ------------------------------------------------------------------ closed forms
double Smooth::val(const ConstVectorRef &x) const {
  double r = c;
  if (a.size())
    r += a.dot(x);
  if (Q.size())
    r += 0.5 * x.dot(Q * x);
  for (auto &s : sins)
    r += s.w * std::sin(s.u.dot(x) + s.p);
  for (auto &s : quarts) {
    double z = s.u.dot(x) - s.q;
    r += s.w * z * z * z * z;
  }
  return r;
}
VectorXs Smooth::grad(const ConstVectorRef &x) const {
  VectorXs g = VectorXs::Zero(x.size());
  if (a.size())
    g += a;
  if (Q.size())
    g += Q * x;
  for (auto &s : sins)
    g += s.w * std::cos(s.u.dot(x) + s.p) * s.u;
  for (auto &s : quarts) {
    double z = s.u.dot(x) - s.q;
    g += 4. * s.w * z * z * z * s.u;
  }
  return g;
}
MatrixXs Smooth::hess(const ConstVectorRef &x) const {
  MatrixXs H = MatrixXs::Zero(x.size(), x.size());
  if (Q.size())
    H += Q;
  for (auto &s : sins)
    H -= s.w * std::sin(s.u.dot(x) + s.p) * s.u * s.u.transpose();
  for (auto &s : quarts) {
    double z = s.u.dot(x) - s.q;
    H += 12. * s.w * z * z * s.u * s.u.transpose();
  }
  return H;
}

VectorXs PureFn::operator()(const ConstVectorRef &x) const {
  VectorXs r(nr());
  for (int i = 0; i < nr(); i++)
    r[i] = f[(size_t)i].val(x);
  return r;
}
void PureFn::computeJacobian(const ConstVectorRef &x, MatrixRef J) const {
  MatrixXs T = sp.tangent(x);
  for (int i = 0; i < nr(); i++)
    J.row(i) = (T.transpose() * f[(size_t)i].grad(x)).transpose();
}
static MatrixXs space_hess(const SpaceSpec &sp, const Smooth &f,
                           const VectorXs &x) {
  MatrixXs T = sp.tangent(x);
  return T.transpose() * f.hess(x) * T + sp.curvature(x, f.grad(x));
}
void PureFn::vectorHessianProduct(const ConstVectorRef &x,
                                  const ConstVectorRef &v, MatrixRef H) const {
  H.setZero();
  for (int i = 0; i < nr(); i++)
    H += v[i] * space_hess(sp, f[(size_t)i], x);
}

struct PureCost : Cost {
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  SpaceSpec sp;
  Smooth f;
  PureCost(const SpaceSpec &sp, const Smooth &f)
      : Cost(sp.nx(), sp.ndx()), sp(sp), f(f) {}
  using Cost::computeGradient;
  using Cost::computeHessian;
  double call(const ConstVectorRef &x) const override { return f.val(x); }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override {
    o = sp.tangent(x).transpose() * f.grad(x);
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override {
    o = space_hess(sp, f, x);
  }
};

// ------------------------------------------------------------------ generation
VectorXs gen_vec(Ctx &c, Stream s, int n, double lim) {
  VectorXs v(n);
  for (int i = 0; i < n; i++)
    v[i] = c.real(s, lim);
  return v;
}
MatrixXs gen_mat(Ctx &c, Stream s, int r, int k, double lim) {
  MatrixXs m(r, k);
  for (int j = 0; j < k; j++)
    for (int i = 0; i < r; i++)
      m(i, j) = c.real(s, lim);
  return m;
}
MatrixXs gen_spd(Ctx &c, Stream s, int n, double lo) {
  MatrixXs m = gen_mat(c, s, n, n, 1.);
  MatrixXs q = m.transpose() * m / std::max(1, n / 2);
  q.diagonal().array() += lo;
  return 0.5 * (q + q.transpose());
}
VectorXs gen_point(Ctx &c, Stream s, const SpaceSpec &sp, double lim) {
  VectorXs x(sp.nx());
  long q = 0;
  for (auto &b : sp.blocks) {
    if (b.kind == BlockSpec::RN || b.kind == BlockSpec::TRN) {
      for (int i = 0; i < b.nx(); i++)
        x[q + i] = c.real(s, lim);
    } else {
      double th = c.real(s, 3.);
      x[q] = std::cos(th);
      x[q + 1] = std::sin(th);
      if (b.kind == BlockSpec::TS1)
        x[q + 2] = c.real(s, lim);
    }
    q += b.nx();
  }
  return x;
}

SpaceSpec gen_space(Ctx &c, const GenOpts &o) {
  SpaceSpec sp;
  uint32_t sz = c.choose(S_PROB, 20);
  int n;
  if (sz < 15)
    n = c.range(S_PROB, 1, o.max_n);
  else if (sz < 19 || !o.big)
    n = c.range(S_PROB, std::min(7, o.max_n), std::max(12, o.max_n));
  else
    n = c.range(S_PROB, 33, 40);
  uint32_t k = o.euclidean_only ? 0 : c.choose(S_PROB, 8);
  BlockSpec b;
  if (k < 4 || n > 12) {
    b.n = n;
    sp.blocks = {b};
    return sp;
  }
  if (k == 4) { // tangent bundle of a vector space
    b.kind = BlockSpec::TRN;
    b.n = (n + 1) / 2;
    sp.blocks = {b};
    return sp;
  }
  if (k == 5 && !o.no_seam_manifold) {
    b.kind = c.choose(S_PROB, 2) ? BlockSpec::TS1 : BlockSpec::S1;
    sp.blocks = {b};
    return sp;
  }
  int nb = c.range(S_PROB, 2, 3);
  for (int i = 0; i < nb; i++) {
    BlockSpec x;
    uint32_t kk = c.choose(S_PROB, 4);
    if (o.no_seam_manifold && (kk == 1 || kk == 3))
      kk = 0;
    x.kind = (BlockSpec::Kind)kk;
    x.n = c.range(S_PROB, 1, std::max(1, n / nb));
    sp.blocks.push_back(x);
  }
  return sp;
}

static Smooth gen_affine(Ctx &c, int nx, double lim) {
  Smooth f;
  f.a = gen_vec(c, S_PROB, nx, lim);
  f.c = c.real(S_PROB, 1.);
  return f;
}
Smooth gen_smooth(Ctx &c, int nx) {
  Smooth f = gen_affine(c, nx, 1.);
  uint32_t k = c.choose(S_PROB, 4);
  if (k == 1 || k == 3) {
    MatrixXs m = gen_mat(c, S_PROB, nx, nx, 0.6);
    f.Q = 0.5 * (m + m.transpose());
  }
  if (k >= 2) {
    int n = c.range(S_PROB, 1, 2);
    for (int i = 0; i < n; i++)
      f.sins.push_back({c.real(S_PROB, 1.), gen_vec(c, S_PROB, nx, 1.),
                        c.real(S_PROB, 1.5)});
  }
  return f;
}

static Ref make_ref_smooth(const SpaceSpec &sp, const std::vector<Smooth> &f) {
  Ref r;
  r.nr = (int)f.size();
  r.val = [f](const VectorXs &x) {
    VectorXs o((long)f.size());
    for (size_t i = 0; i < f.size(); i++)
      o[(long)i] = f[i].val(x);
    return o;
  };
  r.jac = [f, sp](const VectorXs &x) {
    MatrixXs T = sp.tangent(x);
    MatrixXs J((long)f.size(), sp.ndx());
    for (size_t i = 0; i < f.size(); i++)
      J.row((long)i) = (T.transpose() * f[i].grad(x)).transpose();
    return J;
  };
  r.vhp = [f, sp](const VectorXs &x, const VectorXs &v) {
    MatrixXs H = MatrixXs::Zero(sp.ndx(), sp.ndx());
    for (size_t i = 0; i < f.size(); i++)
      H += v[(long)i] * space_hess(sp, f[i], x);
    return H;
  };
  return r;
}

FnSpec gen_fn(Ctx &c, const GenOpts &o, const SpaceSpec &sp, int nr) {
  FnSpec s;
  s.nr = nr;
  uint32_t k = c.choose(S_PROB, 10);
  bool plain = sp.blocks.size() == 1 && sp.blocks[0].kind == BlockSpec::RN;
  if (o.convex_only) {
    k = (k == 2 && plain) ? 2 : k == 3 ? 3 : 0;
  }
  switch (k) {
  default:
  case 0:
    s.kind = FnSpec::AFFINE;
    break;
  case 1:
  case 7:
    s.kind = FnSpec::SMOOTH;
    break;
  case 2:
    s.kind = plain ? FnSpec::LINEAR : FnSpec::AFFINE;
    break;
  case 3:
    s.kind = FnSpec::LIN_DIFF;
    break;
  case 4:
    s.kind = sp.ndx() <= 6 ? FnSpec::DIFF : FnSpec::LIN_DIFF;
    break;
  case 5:
    s.kind = FnSpec::COMPOSE;
    break;
  case 6:
    s.kind = o.allow_fd ? FnSpec::FD : FnSpec::SMOOTH;
    break;
  case 8:
    s.kind = nr == 1 ? FnSpec::COST_AS_FN : FnSpec::SMOOTH;
    break;
  }
  switch (s.kind) {
  case FnSpec::AFFINE:
    for (int i = 0; i < nr; i++)
      s.f.push_back(gen_affine(c, sp.nx(), 1.));
    break;
  case FnSpec::SMOOTH:
  case FnSpec::FD:
    for (int i = 0; i < nr; i++)
      s.f.push_back(gen_smooth(c, sp.nx()));
    break;
  case FnSpec::LINEAR:
    s.A = gen_mat(c, S_PROB, nr, sp.nx(), 1.);
    s.b = gen_vec(c, S_PROB, nr, 1.);
    break;
  case FnSpec::LIN_DIFF:
    s.A = gen_mat(c, S_PROB, nr, sp.ndx(), 1.);
    s.b = gen_vec(c, S_PROB, nr, 1.);
    s.target = gen_point(c, S_PROB, sp, 1.);
    break;
  case FnSpec::DIFF:
    s.nr = sp.ndx();
    s.target = gen_point(c, S_PROB, sp, 1.);
    break;
  case FnSpec::COMPOSE:
    s.target = gen_point(c, S_PROB, sp, 1.);
    for (int i = 0; i < nr; i++)
      s.f.push_back(gen_smooth(c, sp.ndx()));
    break;
  case FnSpec::COST_AS_FN:
    s.A = gen_spd(c, S_PROB, sp.ndx(), 0.2);
    s.target = gen_point(c, S_PROB, sp, 1.);
    break;
  }
  return s;
}

Ref ref_fn(const FnSpec &s, const SpaceSpec &sp) {
  Ref r;
  r.nr = s.nr;
  switch (s.kind) {
  case FnSpec::AFFINE:
  case FnSpec::SMOOTH:
  case FnSpec::FD:
    return make_ref_smooth(sp, s.f);
  case FnSpec::LINEAR:
    r.val = [s](const VectorXs &x) { return VectorXs(s.A * x + s.b); };
    r.jac = [s](const VectorXs &) { return s.A; };
    break;
  case FnSpec::LIN_DIFF:
    r.val = [s, sp](const VectorXs &x) {
      return VectorXs(s.A * sp.minus(x, s.target) + s.b);
    };
    r.jac = [s](const VectorXs &) { return s.A; };
    break;
  case FnSpec::DIFF:
    r.val = [s, sp](const VectorXs &x) { return sp.minus(x, s.target); };
    r.jac = [sp](const VectorXs &) {
      return MatrixXs(MatrixXs::Identity(sp.ndx(), sp.ndx()));
    };
    break;
  case FnSpec::COMPOSE:
    r.val = [s, sp](const VectorXs &x) {
      VectorXs d = sp.minus(x, s.target), o((long)s.f.size());
      for (size_t i = 0; i < s.f.size(); i++)
        o[(long)i] = s.f[i].val(d);
      return o;
    };
    r.jac = [s, sp](const VectorXs &x) {
      VectorXs d = sp.minus(x, s.target);
      MatrixXs J((long)s.f.size(), sp.ndx());
      for (size_t i = 0; i < s.f.size(); i++)
        J.row((long)i) = s.f[i].grad(d).transpose();
      return J;
    };
    break;
  case FnSpec::COST_AS_FN:
    r.val = [s, sp](const VectorXs &x) {
      VectorXs d = sp.minus(x, s.target), o(1);
      o[0] = 0.5 * d.dot(s.A * d);
      return o;
    };
    r.jac = [s, sp](const VectorXs &x) {
      return MatrixXs((s.A.transpose() * sp.minus(x, s.target)).transpose());
    };
    r.vhp = [s](const VectorXs &, const VectorXs &v) {
      return MatrixXs(v[0] * s.A);
    };
    break;
  }
  if (!r.vhp) // documented default: zero
    r.vhp = [sp](const VectorXs &, const VectorXs &) {
      return MatrixXs(MatrixXs::Zero(sp.ndx(), sp.ndx()));
    };
  return r;
}

// user code in the ambient space of dimension n, where it is the identity map
static SpaceSpec flat(int n) {
  SpaceSpec sp;
  BlockSpec b;
  b.n = n;
  sp.blocks = {b};
  return sp;
}

shared_ptr<Fn> build_fn(const FnSpec &s, const SpaceSpec &sp, Keep &k,
                        bool seams) {
  shared_ptr<Fn> f;
  auto seamed = [&](shared_ptr<Fn> p) -> shared_ptr<Fn> {
    if (seams)
      return std::make_shared<SeamFn>(p);
    return p;
  };
  switch (s.kind) {
  case FnSpec::AFFINE:
  case FnSpec::SMOOTH:
    return seamed(std::make_shared<PureFn>(sp, s.f));
  case FnSpec::LINEAR:
    return seamed(std::make_shared<LinearFunctionTpl<double>>(s.A, s.b));
  case FnSpec::LIN_DIFF:
    return seamed(std::make_shared<LinearFunctionDifferenceToPoint<double>>(
        sp.make(), s.target, s.A, s.b));
  case FnSpec::DIFF:
    return seamed(std::make_shared<ManifoldDifferenceToPoint<double>>(
        sp.make(), s.target));
  case FnSpec::COMPOSE: {
    shared_ptr<Fn> inner = std::make_shared<ManifoldDifferenceToPoint<double>>(
        sp.make(), s.target);
    shared_ptr<Fn> outer =
        seamed(std::make_shared<PureFn>(flat(sp.ndx()), s.f));
    return compose<double>(outer, seamed(inner));
  }
  case FnSpec::FD: {
    auto base =
        k.add(std::static_pointer_cast<Fn>(
            seamed(std::make_shared<PureFn>(sp, s.f))));
    auto space = k.add(std::make_shared<polymorphic<Manifold>>(sp.make()));
    return std::make_shared<
        autodiff::finite_difference_wrapper<double, autodiff::TOC2>>(
        **space, *base, 1e-5);
  }
  case FnSpec::COST_AS_FN:
    return seamed(std::make_shared<QuadraticDistanceCostTpl<double>>(
        sp.make(), s.target, s.A));
  }
  return f;
}

CostSpec gen_cost(Ctx &c, const GenOpts &o, const SpaceSpec &sp, int depth) {
  CostSpec s;
  uint32_t k = c.choose(S_PROB, 8);
  if (o.convex_only) {
    static const CostSpec::Kind kinds[] = {CostSpec::QUAD, CostSpec::DIST,
                                           CostSpec::SUM, CostSpec::QUAD};
    s.kind = kinds[k % 4];
  } else {
    static const CostSpec::Kind kinds[] = {
        CostSpec::QUAD, CostSpec::SMOOTH, CostSpec::DIST,   CostSpec::RESID,
        CostSpec::SUM,  CostSpec::RESID,  CostSpec::FROM_FN, CostSpec::QUAD};
    s.kind = kinds[k];
  }
  if (!o.lib_costs && s.kind != CostSpec::SMOOTH)
    s.kind = CostSpec::QUAD;
  if (depth > 0 && s.kind == CostSpec::SUM)
    s.kind = CostSpec::DIST;
  switch (s.kind) {
  case CostSpec::QUAD:
    s.f = gen_affine(c, sp.nx(), 2.);
    s.f.Q = gen_spd(c, S_PROB, sp.nx(), 0.3);
    break;
  case CostSpec::SMOOTH: {
    s.f = gen_smooth(c, sp.nx());
    MatrixXs spd = gen_spd(c, S_PROB, sp.nx(), 0.2);
    if (s.f.Q.size())
      s.f.Q = MatrixXs(s.f.Q + 0.7 * spd);
    else
      s.f.Q = spd;
    if (c.choose(S_PROB, 3) == 1)
      s.f.quarts.push_back({c.pos(S_PROB, 0.01, 1.),
                            gen_vec(c, S_PROB, sp.nx(), 1.),
                            c.real(S_PROB, 1.)});
    break;
  }
  case CostSpec::DIST:
    s.W = gen_spd(c, S_PROB, sp.ndx(), 0.2);
    s.target = gen_point(c, S_PROB, sp, 2.);
    break;
  case CostSpec::RESID: {
    GenOpts oo = o;
    oo.allow_fd = o.allow_fd;
    s.fn = gen_fn(c, oo, sp, c.range(S_PROB, 1, 4));
    if (s.fn.kind == FnSpec::COST_AS_FN || s.fn.kind == FnSpec::FD)
      s.fn.kind == FnSpec::FD ? void(s.fn.kind = FnSpec::SMOOTH) : void();
    s.W = gen_spd(c, S_PROB, s.fn.nr, 0.1);
    s.slope = gen_vec(c, S_PROB, s.fn.nr, 0.5);
    s.constant = c.real(S_PROB, 1.);
    s.gn = c.choose(S_PROB, 3) != 1;
    break;
  }
  case CostSpec::SUM: {
    int n = c.range(S_PROB, 1, 3);
    for (int i = 0; i < n; i++) {
      s.parts.push_back(gen_cost(c, o, sp, depth + 1));
      s.weights.push_back(c.pos(S_PROB, 0.1, 2.));
    }
    break;
  }
  case CostSpec::FROM_FN:
    s.fn = FnSpec();
    s.fn.kind = FnSpec::SMOOTH;
    s.fn.f = {gen_smooth(c, sp.nx())};
    if (s.fn.f[0].Q.size() == 0)
      s.fn.f[0].Q = gen_spd(c, S_PROB, sp.nx(), 0.3);
    else
      s.fn.f[0].Q += gen_spd(c, S_PROB, sp.nx(), 1.);
    break;
  }
  return s;
}

Ref ref_cost(const CostSpec &s, const SpaceSpec &sp) {
  Ref r;
  r.nr = 1;
  switch (s.kind) {
  case CostSpec::QUAD:
  case CostSpec::SMOOTH:
    return make_ref_smooth(sp, {s.f});
  case CostSpec::FROM_FN:
    return ref_fn(s.fn, sp);
  case CostSpec::DIST:
    r.val = [s, sp](const VectorXs &x) {
      VectorXs d = sp.minus(x, s.target), o(1);
      o[0] = 0.5 * d.dot(s.W * d);
      return o;
    };
    r.jac = [s, sp](const VectorXs &x) {
      return MatrixXs((s.W.transpose() * sp.minus(x, s.target)).transpose());
    };
    r.vhp = [s](const VectorXs &, const VectorXs &v) {
      return MatrixXs(v[0] * s.W);
    };
    break;
  case CostSpec::RESID: {
    Ref f = ref_fn(s.fn, sp);
    r.val = [s, f](const VectorXs &x) {
      VectorXs e = f.val(x), o(1);
      o[0] = 0.5 * e.dot(s.W * e) + s.slope.dot(e) + s.constant;
      return o;
    };
    r.jac = [s, f](const VectorXs &x) {
      VectorXs e = f.val(x);
      return MatrixXs(
          (f.jac(x).transpose() * (s.W * e + s.slope)).transpose());
    };
    r.vhp = [s, f](const VectorXs &x, const VectorXs &v) {
      MatrixXs J = f.jac(x);
      MatrixXs H = J.transpose() * s.W * J;
      if (!s.gn)
        H += f.vhp(x, s.W * f.val(x) + s.slope);
      return MatrixXs(v[0] * H);
    };
    break;
  }
  case CostSpec::SUM: {
    std::vector<Ref> p;
    for (auto &q : s.parts)
      p.push_back(ref_cost(q, sp));
    auto wts = s.weights;
    r.val = [p, wts](const VectorXs &x) {
      VectorXs o = VectorXs::Zero(1);
      for (size_t i = 0; i < p.size(); i++)
        o += wts[i] * p[i].val(x);
      return o;
    };
    r.jac = [p, wts, sp](const VectorXs &x) {
      MatrixXs o = MatrixXs::Zero(1, sp.ndx());
      for (size_t i = 0; i < p.size(); i++)
        o += wts[i] * p[i].jac(x);
      return o;
    };
    r.vhp = [p, wts, sp](const VectorXs &x, const VectorXs &v) {
      MatrixXs o = MatrixXs::Zero(sp.ndx(), sp.ndx());
      for (size_t i = 0; i < p.size(); i++)
        o += wts[i] * p[i].vhp(x, v);
      return o;
    };
    break;
  }
  }
  return r;
}

shared_ptr<Cost> build_cost(const CostSpec &s, const SpaceSpec &sp, Keep &k,
                            bool seams) {
  auto seamed = [&](shared_ptr<Cost> p) -> shared_ptr<Cost> {
    if (seams)
      return std::make_shared<SeamCost>(p);
    return p;
  };
  switch (s.kind) {
  case CostSpec::QUAD:
  case CostSpec::SMOOTH:
    return seamed(std::make_shared<PureCost>(sp, s.f));
  case CostSpec::DIST:
    return seamed(std::make_shared<QuadraticDistanceCostTpl<double>>(
        sp.make(), s.target, s.W));
  case CostSpec::RESID: {
    auto c = std::make_shared<QuadraticResidualCostTpl<double>>(
        build_fn(s.fn, sp, k, seams), s.W, s.slope, s.constant);
    c->gauss_newton_ = s.gn;
    return c;
  }
  case CostSpec::SUM: {
    auto c = std::make_shared<CostSumTpl<double>>(sp.nx(), sp.ndx());
    for (size_t i = 0; i < s.parts.size(); i++)
      c->addComponent(build_cost(s.parts[i], sp, k, seams), s.weights[i]);
    return c;
  }
  case CostSpec::FROM_FN:
    return std::make_shared<func_to_cost<double>>(
        build_fn(s.fn, sp, k, seams));
  }
  return nullptr;
}

// a user's set that wants constraint curvature even in Gauss-Newton mode
struct CurvedEquality : EqualityConstraintTpl<double> {
  bool disableGaussNewton() const { return false; }
};
polymorphic<Set> build_set(const SetSpec &s) {
  switch (s.kind) {
  default:
  case SetSpec::EQ:
    if (s.curved)
      return polymorphic<Set>(CurvedEquality());
    return polymorphic<Set>(EqualityConstraintTpl<double>());
  case SetSpec::NEG:
    return polymorphic<Set>(NegativeOrthantTpl<double>());
  case SetSpec::BOX:
    return polymorphic<Set>(BoxConstraintTpl<double>(s.lo, s.hi));
  case SetSpec::L1:
    return polymorphic<Set>(NonsmoothPenaltyL1Tpl<double>());
  case SetSpec::PROD: {
    std::vector<polymorphic<Set>> p;
    std::vector<Eigen::Index> n;
    for (size_t i = 0; i < s.parts.size(); i++) {
      p.push_back(build_set(s.parts[i]));
      n.push_back(s.sizes[i]);
    }
    return polymorphic<Set>(ConstraintSetProductTpl<double>(p, n));
  }
  }
}
VectorXs ref_prox(const SetSpec &s, const VectorXs &z, double mu) {
  VectorXs o(z.size());
  switch (s.kind) {
  case SetSpec::EQ:
    o.setZero();
    break;
  case SetSpec::NEG:
    for (long i = 0; i < z.size(); i++)
      o[i] = z[i] != z[i] ? kNaN : z[i] < 0. ? z[i] : 0.;
    break;
  case SetSpec::BOX:
    for (long i = 0; i < z.size(); i++) {
      double v = z[i];
      if (v > s.hi[i])
        v = s.hi[i];
      if (v < s.lo[i])
        v = s.lo[i];
      o[i] = v;
    }
    break;
  case SetSpec::L1:
    for (long i = 0; i < z.size(); i++)
      o[i] = z[i] > mu ? z[i] - mu : z[i] < -mu ? z[i] + mu
                                 : z[i] != z[i] ? kNaN
                                                : 0.;
    break;
  case SetSpec::PROD: {
    long k = 0;
    for (size_t i = 0; i < s.parts.size(); i++) {
      o.segment(k, s.sizes[i]) =
          ref_prox(s.parts[i], z.segment(k, s.sizes[i]), mu);
      k += s.sizes[i];
    }
    break;
  }
  }
  return o;
}
double ref_set_value(const SetSpec &s, const VectorXs &z) {
  if (s.kind == SetSpec::L1)
    return z.size() ? z.cwiseAbs().sum() : 0.;
  double r = 0.;
  if (s.kind == SetSpec::PROD) {
    long k = 0;
    for (size_t i = 0; i < s.parts.size(); i++) {
      r += ref_set_value(s.parts[i], z.segment(k, s.sizes[i]));
      k += s.sizes[i];
    }
  }
  return r;
}

SetSpec gen_set(Ctx &c, const GenOpts &o, int nr, int depth, bool &anchored) {
  SetSpec s;
  uint32_t k = c.choose(S_PROB, 8);
  static const SetSpec::Kind kinds[] = {SetSpec::EQ,  SetSpec::NEG,
                                        SetSpec::BOX, SetSpec::NEG,
                                        SetSpec::EQ,  SetSpec::BOX,
                                        SetSpec::L1,  SetSpec::PROD};
  s.kind = kinds[k];
  if (s.kind == SetSpec::PROD && (depth > 1 || nr < 2 || !o.allow_prod))
    s.kind = SetSpec::NEG;
  if (s.kind == SetSpec::L1 && !o.allow_l1)
    s.kind = SetSpec::BOX;
  s.curved = k == 4 && depth == 0;
  anchored = true;
  if (s.kind == SetSpec::BOX) {
    s.lo.resize(nr);
    s.hi.resize(nr);
    for (int i = 0; i < nr; i++) {
      s.lo[i] = -c.pos(S_PROB, 0., 1.5);
      s.hi[i] = c.pos(S_PROB, 0., 1.5);
      uint32_t inf = c.choose(S_PROB, 12);
      if (inf == 10)
        s.lo[i] = -kInf;
      if (inf == 11)
        s.hi[i] = kInf;
    }
  }
  if (s.kind == SetSpec::PROD) {
    int k = nr == 2 ? 2 : c.range(S_PROB, 2, std::min(nr, 4)), left = nr;
    bool dummy;
    for (int i = 0; i < k; i++) {
      int a = i + 1 == k ? left : c.range(S_PROB, 1, left - (k - 1 - i));
      s.sizes.push_back(a);
      s.parts.push_back(gen_set(c, o, a, depth + 1, dummy));
      left -= a;
    }
  }
  return s;
}

// move the constraint so that c(xf) lies in the set
static void shift_fn(FnSpec &f, const VectorXs &d) {
  switch (f.kind) {
  case FnSpec::AFFINE:
  case FnSpec::SMOOTH:
  case FnSpec::FD:
  case FnSpec::COMPOSE:
    for (size_t i = 0; i < f.f.size(); i++)
      f.f[i].c += d[(long)i];
    break;
  case FnSpec::LINEAR:
  case FnSpec::LIN_DIFF:
    f.b += d;
    break;
  default:
    break;
  }
}

CstrSpec gen_cstr(Ctx &c, const GenOpts &o, const SpaceSpec &sp,
                  const VectorXs &xf) {
  CstrSpec s;
  int nr = c.range(S_PROB, 1, 4);
  if (c.choose(S_PROB, 16) == 15)
    nr = c.range(S_PROB, 5, 12);
  s.fn = gen_fn(c, o, sp, nr);
  nr = s.fn.nr;
  bool anch;
  s.set = gen_set(c, o, nr, 0, anch);
  if ((s.set.kind == SetSpec::EQ || s.set.kind == SetSpec::PROD) &&
      nr > sp.ndx() && s.fn.kind != FnSpec::DIFF)
    s.set = SetSpec{SetSpec::NEG, {}, {}, {}, {}};
  if (s.fn.kind == FnSpec::COST_AS_FN) { // 1/2 |x - t|^2 <= radius: a ball
    s.set = SetSpec();
    s.set.kind = SetSpec::BOX;
    s.set.lo = VectorXs::Constant(1, -1.);
    VectorXs v = ref_fn(s.fn, sp).val(xf);
    s.set.hi = VectorXs::Constant(1, v[0] + c.pos(S_PROB, 0.1, 1.));
    return s;
  }
  if (s.fn.kind == FnSpec::DIFF) {
    if (s.set.kind == SetSpec::BOX) {
      VectorXs v = ref_fn(s.fn, sp).val(xf);
      s.set.lo += v;
      s.set.hi += v;
    }
    return s;
  }
  // slack inside the set at xf
  VectorXs v = ref_fn(s.fn, sp).val(xf);
  VectorXs want = VectorXs::Zero(nr);
  for (int i = 0; i < nr; i++)
    if (s.set.kind == SetSpec::NEG)
      want[i] = -c.pos(S_PROB, 0., 1.);
  shift_fn(s.fn, want - v);
  return s;
}

ProbSpec gen_problem(Ctx &c, const GenOpts &o) {
  ProbSpec p;
  p.space = gen_space(c, o);
  p.xf = gen_point(c, S_PROB, p.space, 1.5);
  p.cost = gen_cost(c, o, p.space);
  int nc = c.range(S_PROB, 0, o.max_cstr);
  for (int i = 0; i < nc; i++)
    p.cstrs.push_back(gen_cstr(c, o, p.space, p.xf));
  return p;
}

OptSpec gen_opts(Ctx &c, const SpaceSpec &sp, bool wild) {
  OptSpec o;
  static const LDLTChoice ld[] = {LDLTChoice::BUNCHKAUFMAN, LDLTChoice::DENSE,
                                  LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN};
  o.ldlt = ld[c.choose(S_CFG, 4)];
  static const HessianApprox hs[] = {
      HessianApprox::GAUSS_NEWTON, HessianApprox::EXACT,
      HessianApprox::IDENTITY, HessianApprox::BFGS, HessianApprox::EXACT,
      HessianApprox::GAUSS_NEWTON};
  o.hess = hs[c.choose(S_CFG, 6)];
  if (o.hess == HessianApprox::BFGS && sp.nx() != sp.ndx())
    o.hess = HessianApprox::EXACT;
  o.kkt = c.choose(S_CFG, 3) == 1 ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  static const MultiplierUpdateMode mu[] = {
      MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL,
      MultiplierUpdateMode::PRIMAL_DUAL, MultiplierUpdateMode::NEWTON};
  o.mul = mu[c.choose(S_CFG, 4)];
  static const double tols[] = {1e-6, 1e-4, 1e-3, 1e-5, 1e-7, 1e-2};
  o.tol = tols[c.choose(S_CFG, 6)];
  static const double mus[] = {1e-2, 1e-1, 1e-3, 0.5, 1e-4, 0.9};
  o.mu_init = mus[c.choose(S_CFG, 6)];
  static const double rhos[] = {0., 0., 1e-3, 1e-1, 1., 1e-6};
  o.rho = rhos[c.choose(S_CFG, 6)];
  static const std::size_t its[] = {100, 100, 200, 60, 100, 30, 12, 5, 2, 1};
  o.max_iters = its[c.choose(S_CFG, 10)];
  if (c.choose(S_CFG, 8) == 7)
    o.max_al = 1 + c.choose(S_CFG, 6);
  static const std::size_t refs[] = {5, 1, 2, 0, 10};
  o.max_ref = refs[c.choose(S_CFG, 5)];
  if (c.choose(S_CFG, 3) == 1)
    o.verbose = VERBOSE;
  if (wild) {
    static const LSInterpolation li[] = {LSInterpolation::CUBIC,
                                         LSInterpolation::QUADRATIC,
                                         LSInterpolation::BISECTION};
    o.ls.interp_type = li[c.choose(S_CFG, 3)];
    static const double am[] = {1e-6, 1e-3, 1e-2, 1e-8};
    o.ls.alpha_min = am[c.choose(S_CFG, 4)];
    static const std::size_t ms[] = {20, 5, 1, 40};
    o.ls.max_num_steps = ms[c.choose(S_CFG, 4)];
    static const double ml[] = {1e-9, 1e-5, 1e-3};
    o.mu_lower = ml[c.choose(S_CFG, 3)];
    if (o.mu_lower > o.mu_init)
      o.mu_lower = o.mu_init;
    if (c.choose(S_CFG, 6) == 5)
      o.bcl.rho_update_factor = 0.1;
    static const double mf[] = {0.01, 0.1, 0.5};
    o.bcl.mu_update_factor = mf[c.choose(S_CFG, 3)];
  }
  return o;
}

void OptSpec::apply(Solver &s) const {
  s.ldlt_choice_ = ldlt;
  s.hess_approx = hess;
  s.kkt_system_ = kkt;
  s.mul_update_mode = mul;
  s.target_tol = tol;
  s.mu_init_ = mu_init;
  s.rho_init_ = rho;
  s.mu_lower_ = mu_lower;
  s.verbose = verbose;
  s.max_iters = max_iters;
  s.max_al_iters = max_al;
  s.max_refinement_steps_ = max_ref;
  s.kkt_tolerance_ = kkt_tol;
  s.ls_options = ls;
  s.bcl_params = bcl;
}

std::string describe(const ProbSpec &p) {
  static const char *bk[] = {"R", "S1", "TR", "TS1"};
  static const char *fk[] = {"affine", "smooth", "linear", "lin_diff",
                             "diff",   "compose", "fd",    "cost_as_fn"};
  static const char *ck[] = {"quad", "smooth", "dist", "resid", "sum",
                             "func_to_cost"};
  static const char *sk[] = {"eq", "neg", "box", "l1", "prod"};
  std::string s = "space ";
  for (auto &b : p.space.blocks)
    s += std::string(bk[b.kind]) +
         (b.kind == BlockSpec::RN || b.kind == BlockSpec::TRN
              ? std::to_string(b.n)
              : "") +
         " ";
  s += "cost ";
  s += ck[p.cost.kind];
  if (p.cost.kind == CostSpec::RESID)
    s += std::string("(") + fk[p.cost.fn.kind] + (p.cost.gn ? ",gn" : ",full") +
         ")";
  for (auto &q : p.cost.parts)
    s += std::string("+") + ck[q.kind];
  for (auto &q : p.cstrs) {
    s += std::string(" | ") + fk[q.fn.kind] + " in " + sk[q.set.kind] + "(" +
         std::to_string(q.fn.nr) + ")";
    for (size_t i = 0; i < q.set.parts.size(); i++)
      s += std::string(i ? "x" : ":") + sk[q.set.parts[i].kind];
  }
  return s;
}
std::string describe(const OptSpec &o) {
  static const char *ld[] = {"dense", "bunchkaufman", "blocksparse", "eigen"};
  static const char *hs[] = {"exact", "gauss-newton", "bfgs", "identity"};
  static const char *ls[] = {"bisection", "quadratic", "cubic"};
  char b[400];
  snprintf(b, sizeof b,
           "ldlt %s hess %s kkt %s mul %d tol %g mu %g rho %g mu_lower %g "
           "iters %zu al %zu refine %zu ls %s/%g/%zu verbose %d",
           ld[(int)o.ldlt], hs[(int)o.hess],
           o.kkt == KKT_CLASSIC ? "classic" : "primal-dual", (int)o.mul, o.tol,
           o.mu_init, o.rho, o.mu_lower, o.max_iters, o.max_al, o.max_ref,
           ls[(int)o.ls.interp_type], o.ls.alpha_min, o.ls.max_num_steps,
           (int)o.verbose);
  return b;
}

// ------------------------------------------------------------------ building
World::World(const ProbSpec &s, bool seams) : spec(s) {
  auto cost = build_cost(s.cost, s.space, keep, seams);
  std::vector<Cstr> cs;
  for (auto &q : s.cstrs)
    cs.emplace_back(build_fn(q.fn, s.space, keep, seams), build_set(q.set));
  prob.reset(new Problem(s.space.make(), cost, cs));
}

int total_dim(const ProbSpec &p) {
  int n = 0;
  for (auto &q : p.cstrs)
    n += q.fn.nr;
  return n;
}

KKT ref_kkt(const ProbSpec &p, const VectorXs &x, const VectorXs &lam,
            double mu) {
  KKT k;
  Ref rc = ref_cost(p.cost, p.space);
  k.value = rc.val(x)[0];
  k.grad = rc.jac(x).row(0).transpose();
  VectorXs d = k.grad;
  int n = total_dim(p);
  k.c.resize(n);
  k.J.resize(n, p.space.ndx());
  k.viol.resize((long)p.cstrs.size());
  long at = 0;
  for (size_t i = 0; i < p.cstrs.size(); i++) {
    Ref f = ref_fn(p.cstrs[i].fn, p.space);
    int nr = p.cstrs[i].fn.nr;
    VectorXs v = f.val(x);
    MatrixXs J = f.jac(x);
    k.c.segment(at, nr) = v;
    k.J.middleRows(at, nr) = J;
    VectorXs l = lam.segment(at, nr);
    d += J.transpose() * l;
    VectorXs e = v - ref_prox(p.cstrs[i].set, v + mu * l, mu);
    k.viol[(long)i] = infn(e);
    at += nr;
  }
  k.prim = infn(k.viol);
  k.dual = infn(d);
  return k;
}

// ------------------------------------------------------------------ outcomes
const char *outcome_name(Outcome::Kind k) {
  static const char *n[] = {"returned",      "injected runtime_error",
                            "injected logic_error", "injected foreign type",
                            "library error", "other std::exception",
                            "bad_alloc",     "unknown exception"};
  return n[k];
}
Snapshot snap(const Solver &s, const Outcome &o) {
  Snapshot r;
  r.out = o;
  const Results &q = *s.results_;
  r.x = q.x_opt;
  r.lam = q.data_lams_opt;
  r.value = q.value;
  r.merit = q.merit;
  r.prim = q.prim_infeas;
  r.dual = q.dual_infeas;
  r.mu = q.mu;
  r.rho = q.rho;
  r.iters = q.num_iters;
  r.al = q.al_iters;
  r.converged = q.converged;
  return r;
}
std::string diff(const Snapshot &a, const Snapshot &b, bool with_merit) {
  char buf[300];
#define W_DIFF(cond, ...)                                                      \
  if (cond) {                                                                  \
    snprintf(buf, sizeof buf, __VA_ARGS__);                                    \
    return buf;                                                                \
  }
  W_DIFF(a.out.kind != b.out.kind, "outcome %s vs %s", outcome_name(a.out.kind),
         outcome_name(b.out.kind));
  W_DIFF(a.out.flag != b.out.flag, "flag %d vs %d", (int)a.out.flag,
         (int)b.out.flag);
  size_t n = std::min(a.traj.size(), b.traj.size());
  for (size_t i = 0; i < n; i++)
    if (!bits(a.traj[i], b.traj[i]))
      return "iterate " + std::to_string(i) + ": " + vs(a.traj[i]) + " vs " +
             vs(b.traj[i]);
  for (size_t i = 0; i < std::min(a.scal.size(), b.scal.size()); i++)
    if (i == 4 && a.scal.size() == 6 && b.scal.size() == 6)
      continue; // no step was taken: there is no step size
    else if (!same_bits(a.scal[i], b.scal[i])) {
      static const char *nm[] = {"value", "merit", "prim", "dual", "alpha",
                                 "num_iters"};
      W_DIFF(true, "callback %zu saw %s %.17g vs %.17g", i / 6, nm[i % 6],
             a.scal[i], b.scal[i]);
    }
  W_DIFF(a.traj.size() != b.traj.size(), "callbacks %zu vs %zu", a.traj.size(),
         b.traj.size());
  W_DIFF(a.iters != b.iters, "num_iters %zu vs %zu", a.iters, b.iters);
  W_DIFF(a.al != b.al, "al_iters %zu vs %zu", a.al, b.al);
  if (!bits(a.x, b.x))
    return "x_opt " + vs(a.x) + " vs " + vs(b.x);
  if (!bits(a.lam, b.lam))
    return "lams_opt " + vs(a.lam) + " vs " + vs(b.lam);
  W_DIFF(!same_bits(a.prim, b.prim), "prim_infeas %.17g vs %.17g", a.prim,
         b.prim);
  W_DIFF(!same_bits(a.dual, b.dual), "dual_infeas %.17g vs %.17g", a.dual,
         b.dual);
  W_DIFF(!same_bits(a.mu, b.mu), "mu %.17g vs %.17g", a.mu, b.mu);
  W_DIFF(!same_bits(a.rho, b.rho), "rho %.17g vs %.17g", a.rho, b.rho);
  W_DIFF(a.converged != b.converged, "converged %d vs %d", a.converged,
         b.converged);
  if (with_merit) {
    W_DIFF(!same_bits(a.value, b.value), "value %.17g vs %.17g", a.value,
           b.value);
    W_DIFF(!same_bits(a.merit, b.merit), "merit %.17g vs %.17g", a.merit,
           b.merit);
  }
  return "";
}
void hash_snap(Ctx &c, const Snapshot &s) {
  c.h((uint64_t)s.out.kind);
  c.h((uint64_t)s.out.flag);
  hv(c, s.x);
  hv(c, s.lam);
  c.hd(s.prim);
  c.hd(s.dual);
  c.h(s.iters);
  c.h(s.al);
  for (auto &v : s.traj)
    hv(c, v);
}
} // namespace w
