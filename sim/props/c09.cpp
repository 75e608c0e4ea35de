// C09: an allocation that fails anywhere in the library surfaces as bad_alloc,
// loses and corrupts nothing, and the operation can be repeated.
#include "common.hpp"
using namespace w;
using Sum = CostSumTpl<double>;
using Prod = CartesianProductTpl<double>;
using History = helpers::history_callback<double>;
using Ldlt = LDLTVariant<double>;

enum OpKind {
  MAKE_PROBLEM,
  ADD_CSTR,
  NEW_SOLVER,
  SETUP,
  SOLVE,
  REGISTER,
  SUM_NEW,
  SUM_ADD,
  SUM_PLUS_PTR,
  SUM_PLUS_SUM,
  SUM_SCALE,
  SUM_CLONE,
  SUM_ASSIGN,
  SUM_OF_COSTS,
  SUM_RVALUE,
  PROD_NEW,
  PROD_ADD_SPACE,
  PROD_ADD_POLY,
  PROD_ADD_PROD,
  PROD_ASSIGN,
  PROD_TIMES,
  PROD_USE,
  LDLT_NEW,
  LDLT_COMPUTE,
  LDLT_COPY,
  LDLT_ASSIGN,
  LDLT_PERMUTE,
  LDLT_SOLVE,
  CSTR_COPY,
  SET_ASSIGN,
  EVALUATE,
  NKIND
};
static const char *const kind_names[NKIND] = {
    "make problem",     "add constraint",   "new solver",
    "setup",            "solve",            "register callback",
    "new cost sum",     "sum.addComponent", "sum += cost",
    "sum += sum",       "scale sum",        "clone sum",
    "assign sum",       "cost + cost",      "sum&& + cost",
    "new product",      "product.add(space)", "product.add(polymorphic)",
    "product.add(product)", "assign product", "product * space",
    "use product",      "allocate LDLT",    "LDLT compute",
    "copy LDLT",        "assign LDLT",      "permute LDLT",
    "LDLT solve",       "copy constraints", "assign set",
    "evaluate"};
// operations that must leave no trace when they fail
static bool strong(OpKind k) {
  switch (k) {
  case SETUP:
  case SOLVE:
  case SUM_ASSIGN:
  case PROD_ASSIGN:
  case LDLT_COMPUTE:
  case LDLT_ASSIGN:
  case LDLT_PERMUTE:
  case EVALUATE:
    return false;
  default:
    return true;
  }
}

struct Op {
  OpKind kind = SUM_NEW;
  int a = 0, b = 0, n = 1;
  double w = 1.;
  bool flag = false;
};
static constexpr int SLOTS = 3;

struct Plan { // everything generated, nothing of the library in it
  ProbSpec p;
  OptSpec o;
  Inputs in;
  std::vector<CostSpec> costs;
  std::vector<VectorXs> pts;
  std::vector<isize> dims[SLOTS];
  int nprim[SLOTS];
  LDLTChoice choice[SLOTS];
  MatrixXs mats[SLOTS][2];
  VectorXs rhs[SLOTS];
  std::vector<isize> perm[SLOTS];
  std::vector<Op> ops;
};

struct LdltSlot {
  std::unique_ptr<Ldlt> f;
  int which = 0; // of the plan
  bool computed = false;
  VectorXs sol;
};

struct St {
  const Plan &pl;
  Keep keep;
  std::unique_ptr<Problem> prob;
  std::size_t used = 0; // constraints of the plan that are in prob
  std::unique_ptr<Solver> solver;
  shared_ptr<History> hist, extra;
  std::vector<Cstr> copies;
  std::unique_ptr<polymorphic<Set>> set;
  int set_which = 0;
  shared_ptr<Sum> sums[SLOTS];
  std::unique_ptr<Prod> prods[SLOTS];
  VectorXs prod_out;
  LdltSlot ldlt[SLOTS];
  VectorXs eval_out;
  bool solved = false;
  Outcome last; // of the last solve
  explicit St(const Plan &p) : pl(p) {}
};

static polymorphic<Manifold> space_of(int n, bool bundle) {
  if (bundle)
    return TangentBundleTpl<VectorSpaceTpl<double>>(VectorSpaceTpl<double>(n));
  return VectorSpaceTpl<double>(n);
}

// false: not applicable in this state
static bool exec(St &s, const Op &op) {
  const Plan &pl = s.pl;
  const SpaceSpec &sp = pl.p.space;
  switch (op.kind) {
  case MAKE_PROBLEM: {
    auto cost = build_cost(pl.p.cost, sp, s.keep);
    std::vector<Cstr> cs;
    std::size_t n = std::min<std::size_t>((size_t)op.n, pl.p.cstrs.size());
    for (std::size_t i = 0; i < n; i++)
      cs.emplace_back(build_fn(pl.p.cstrs[i].fn, sp, s.keep),
                      build_set(pl.p.cstrs[i].set));
    auto q = std::make_unique<Problem>(sp.make(), cost, cs);
    s.solver.reset();
    s.prob = std::move(q);
    s.used = n;
    s.solved = false;
    return true;
  }
  case ADD_CSTR: {
    if (!s.prob || s.used >= pl.p.cstrs.size())
      return false;
    const CstrSpec &k = pl.p.cstrs[s.used];
    Cstr cs(build_fn(k.fn, sp, s.keep), build_set(k.set));
    if (op.flag)
      s.prob->addConstraint(cs);
    else
      s.prob->addConstraint(std::move(cs));
    s.used++;
    s.solved = false;
    return true;
  }
  case NEW_SOLVER: {
    if (!s.prob)
      return false;
    auto q = std::make_unique<Solver>(*s.prob);
    s.solver = std::move(q);
    s.solved = false;
    return true;
  }
  case SETUP:
    if (!s.solver)
      return false;
    s.solved = false;
    pl.o.apply(*s.solver);
    s.solver->setup();
    return true;
  case SOLVE: {
    if (!s.solver)
      return false;
    s.solved = false;
    pl.o.apply(*s.solver);
    s.solver->clearCallbacks();
    s.hist.reset();
    auto h = std::make_shared<History>(true, true, true);
    s.solver->registerCallback(h);
    s.solver->setup();
    VectorXs l0 = pl.in.l0.head(s.prob->getTotalConstraintDim());
    Task t;
    TaskGuard tg(&t);
    s.last = attempt([&] { return s.solver->solve(pl.in.x0, l0); });
    if (s.last.kind == Outcome::BAD_ALLOC)
      throw std::bad_alloc();
    s.hist = h;
    s.solved = true;
    return true;
  }
  case REGISTER: {
    if (!s.solver)
      return false;
    auto h = std::make_shared<History>(true, false, true);
    s.solver->registerCallback(h);
    s.extra = h;
    return true;
  }
  case SUM_NEW: {
    auto q = std::make_shared<Sum>(sp.nx(), sp.ndx());
    s.sums[op.a] = q;
    return true;
  }
  case SUM_ADD:
    if (!s.sums[op.a])
      return false;
    s.sums[op.a]->addComponent(build_cost(pl.costs[(size_t)op.n], sp, s.keep),
                               op.w);
    return true;
  case SUM_PLUS_PTR:
    if (!s.sums[op.a])
      return false;
    *s.sums[op.a] += build_cost(pl.costs[(size_t)op.n], sp, s.keep);
    return true;
  case SUM_PLUS_SUM:
    if (!s.sums[op.a] || !s.sums[op.b] ||
        s.sums[op.a]->numComponents() + s.sums[op.b]->numComponents() > 40)
      return false;
    *s.sums[op.a] += *s.sums[op.b];
    return true;
  case SUM_SCALE:
    if (!s.sums[op.a])
      return false;
    *s.sums[op.a] *= op.w;
    return true;
  case SUM_CLONE:
    if (!s.sums[op.b])
      return false;
    s.sums[op.a] = op.flag ? op.w * *s.sums[op.b] : s.sums[op.b]->clone();
    return true;
  case SUM_ASSIGN:
    if (!s.sums[op.a] || !s.sums[op.b])
      return false;
    *s.sums[op.a] = *s.sums[op.b];
    return true;
  case SUM_OF_COSTS: {
    shared_ptr<Cost> l = build_cost(pl.costs[(size_t)op.n], sp, s.keep);
    shared_ptr<Cost> r = build_cost(pl.costs[0], sp, s.keep);
    s.sums[op.a] = op.flag ? op.w * l : l + r;
    return true;
  }
  case SUM_RVALUE: {
    shared_ptr<Cost> l = build_cost(pl.costs[(size_t)op.n], sp, s.keep);
    shared_ptr<Cost> r = build_cost(pl.costs[0], sp, s.keep);
    s.sums[op.a] = (l + r) + r;
    return true;
  }
  case PROD_NEW: {
    std::unique_ptr<Prod> q;
    if (op.flag)
      q = std::make_unique<Prod>(space_of(op.n, false), space_of(1, true));
    else
      q = std::make_unique<Prod>();
    s.prods[op.a] = std::move(q);
    return true;
  }
  case PROD_ADD_SPACE:
    if (!s.prods[op.a])
      return false;
    s.prods[op.a]->addComponent(VectorSpaceTpl<double>(op.n));
    return true;
  case PROD_ADD_POLY:
    if (!s.prods[op.a])
      return false;
    s.prods[op.a]->addComponent(space_of(op.n, op.flag));
    return true;
  case PROD_ADD_PROD:
    if (!s.prods[op.a] || !s.prods[op.b] ||
        s.prods[op.a]->numComponents() + s.prods[op.b]->numComponents() > 24)
      return false;
    s.prods[op.a]->addComponent(*s.prods[op.b]);
    return true;
  case PROD_ASSIGN:
    if (!s.prods[op.a] || !s.prods[op.b])
      return false;
    *s.prods[op.a] = *s.prods[op.b];
    return true;
  case PROD_TIMES: {
    if (!s.prods[op.b] || s.prods[op.b]->numComponents() > 10)
      return false;
    auto q = std::make_unique<Prod>(op.flag ? *s.prods[op.b] * *s.prods[op.b]
                                            : *s.prods[op.b] *
                                                  space_of(op.n, false));
    s.prods[op.a] = std::move(q);
    return true;
  }
  case PROD_USE: {
    if (!s.prods[op.a])
      return false;
    const Prod &q = *s.prods[op.a];
    VectorXs x = q.neutral(), v = VectorXs::Constant(q.ndx(), op.w);
    VectorXs out(q.nx()), d(q.ndx());
    q.integrate(x, v, out);
    q.difference(x, out, d);
    MatrixXs J = MatrixXs::Zero(q.ndx(), q.ndx());
    q.Jintegrate(x, v, J, 1);
    auto parts = q.split(ConstVectorRef(out));
    std::vector<VectorXs> cp(parts.begin(), parts.end());
    VectorXs back = q.merge(cp);
    VectorXs r(q.nx() * 2 + q.ndx() + 1);
    r << out, back, d, J.sum();
    s.prod_out = std::move(r);
    return true;
  }
  case LDLT_NEW: {
    std::vector<isize> np(pl.dims[op.b].begin(),
                          pl.dims[op.b].begin() + pl.nprim[op.b]),
        nd(pl.dims[op.b].begin() + pl.nprim[op.b], pl.dims[op.b].end());
    auto q = std::make_unique<Ldlt>(
        allocate_ldlt_from_sizes<double>(np, nd, pl.choice[op.b]));
    s.ldlt[op.a].f = std::move(q);
    s.ldlt[op.a].which = op.b;
    s.ldlt[op.a].computed = false;
    s.ldlt[op.a].sol.resize(0);
    return true;
  }
  case LDLT_COMPUTE: {
    LdltSlot &l = s.ldlt[op.a];
    if (!l.f)
      return false;
    l.computed = false;
    const MatrixXs &m = pl.mats[l.which][op.n % 2];
    boost::apply_visitor([&](auto &f) { f.compute(m); }, *l.f);
    l.computed = true;
    return true;
  }
  case LDLT_COPY: {
    if (!s.ldlt[op.b].f)
      return false;
    auto q = std::make_unique<Ldlt>(*s.ldlt[op.b].f);
    s.ldlt[op.a].f = std::move(q);
    s.ldlt[op.a].which = s.ldlt[op.b].which;
    s.ldlt[op.a].computed = s.ldlt[op.b].computed;
    s.ldlt[op.a].sol.resize(0);
    return true;
  }
  case LDLT_ASSIGN: {
    if (!s.ldlt[op.b].f || !s.ldlt[op.a].f || op.a == op.b)
      return false;
    // Eigen (not the library) frees a buffer twice when resizing a non-empty
    // matrix runs out of memory: same sizes only
    if (pl.rhs[s.ldlt[op.b].which].size() != pl.rhs[s.ldlt[op.a].which].size())
      return false;
    s.ldlt[op.a].computed = false;
    s.ldlt[op.a].sol.resize(0);
    *s.ldlt[op.a].f = *s.ldlt[op.b].f;
    s.ldlt[op.a].which = s.ldlt[op.b].which;
    s.ldlt[op.a].computed = s.ldlt[op.b].computed;
    return true;
  }
  case LDLT_PERMUTE: {
    LdltSlot &l = s.ldlt[op.a];
    auto *bl = l.f ? boost::get<linalg::BlockLDLT<double>>(l.f.get()) : nullptr;
    if (!bl)
      return false;
    l.computed = false;
    if (op.flag)
      bl->findSparsifyingPermutation();
    else
      bl->setBlockPermutation(pl.perm[l.which].data());
    return true;
  }
  case LDLT_SOLVE: {
    LdltSlot &l = s.ldlt[op.a];
    if (!l.f || !l.computed)
      return false;
    VectorXs out;
    boost::apply_visitor(
        [&](const auto &f) { out = f.solve(pl.rhs[l.which]); }, *l.f);
    l.sol = std::move(out);
    return true;
  }
  case CSTR_COPY: {
    if (!s.prob)
      return false;
    std::vector<Cstr> q(s.prob->constraints_);
    s.copies.swap(q);
    return true;
  }
  case SET_ASSIGN: {
    if (pl.p.cstrs.empty())
      return false;
    polymorphic<Set> q =
        build_set(pl.p.cstrs[(size_t)op.n % pl.p.cstrs.size()].set);
    if (!s.set)
      s.set = std::make_unique<polymorphic<Set>>(q);
    else
      *s.set = q; // fails before it lets go of what it held
    s.set_which = (int)((size_t)op.n % pl.p.cstrs.size());
    return true;
  }
  case EVALUATE: {
    if (!s.prob)
      return false;
    Workspace ws(*s.prob);
    s.prob->evaluate(pl.in.x0, ws);
    s.prob->computeDerivatives(pl.in.x0, ws);
    s.prob->computeHessians(pl.in.x0, ws, true);
    VectorXs r(3 + ws.data_cstr_values.size());
    r << ws.objective_value, ws.objective_gradient.sum(),
        ws.data_jacobians.sum(), ws.data_cstr_values;
    s.eval_out = std::move(r);
    return true;
  }
  case NKIND:
    break;
  }
  return false;
}

// ------------------------------------------------------------------ digest
struct Dig {
  std::vector<uint64_t> v;
  void i(long k) { v.push_back((uint64_t)k); }
  void d(double x) {
    uint64_t u = 0x7ff8000000000000ull;
    if (x == x)
      memcpy(&u, &x, 8);
    v.push_back(u);
  }
  void vec(const VectorXs &x) {
    i(x.size());
    for (long k = 0; k < x.size(); k++)
      d(x[k]);
  }
};
static void dig_cstr(Dig &d, const Cstr &c, const VectorXs &x) {
  VectorXs v = c.func()(x);
  d.vec(v);
  VectorXs z(v.size()), z0 = VectorXs::Constant(v.size(), 0.75);
  c.set_->projection(z0, z);
  d.vec(z);
}
// Everything a user can see; `what` says which part is which.
static Dig digest(const St &s) {
  AllocPause pause;
  Dig d;
  const Plan &pl = s.pl;
  const VectorXs &x = pl.in.x0;
  d.i(s.prob ? 1 : 0);
  if (s.prob) {
    const Problem &p = *s.prob;
    d.i((long)s.used);
    d.i((long)p.getNumConstraints());
    d.i(p.getTotalConstraintDim());
    std::vector<int> ind = p.getIndices();
    d.i((long)ind.size());
    for (std::size_t i = 0; i < p.getNumConstraints(); i++) {
      d.i(i < ind.size() ? ind[i] : -1);
      d.i(i < ind.size() ? p.getConstraintDim(i) : -1);
      dig_cstr(d, p.getConstraint(i), x);
    }
    d.d(p.cost().call(x));
    d.i(p.ndx());
  }
  d.i(s.solver ? 1 : 0);
  d.i(s.solved);
  if (s.solver && s.solved) {
    const Results &r = *s.solver->results_;
    d.i((long)s.last.kind);
    d.i((long)s.last.flag);
    d.vec(r.x_opt);
    d.vec(r.data_lams_opt);
    d.d(r.value);
    d.d(r.prim_infeas);
    d.d(r.dual_infeas);
    d.i((long)r.num_iters);
    d.i((long)r.al_iters);
  }
  if (s.solved && s.hist) {
    d.i((long)s.hist->storage.xs.size());
    for (auto &v : s.hist->storage.xs)
      d.vec(v);
    for (auto v : s.hist->storage.values)
      d.d((double)v);
    for (double v : s.hist->storage.prim_infeas)
      d.d(v);
    for (double v : s.hist->storage.dual_infeas)
      d.d(v);
  }
  for (auto &q : s.sums) {
    d.i(q ? 1 : 0);
    if (!q)
      continue;
    d.i((long)q->components_.size());
    d.i((long)q->weights_.size());
    for (auto wt : q->weights_)
      d.d(wt);
    if (q->components_.size() == q->weights_.size()) {
      d.d(q->call(x));
      VectorXs gr(q->ndx());
      q->computeGradient(x, gr);
      d.vec(gr);
    }
  }
  for (auto &q : s.prods) {
    d.i(q ? 1 : 0);
    if (!q)
      continue;
    d.i((long)q->numComponents());
    d.i(q->nx());
    d.i(q->ndx());
    for (std::size_t i = 0; i < q->numComponents(); i++) {
      d.i(q->getComponent(i).nx());
      d.i(q->getComponent(i).ndx());
    }
  }
  d.vec(s.prod_out);
  for (auto &l : s.ldlt) {
    d.i(l.f ? l.f->which() : -1);
    if (!l.f)
      continue;
    d.i(l.computed);
    if (l.computed) {
      VectorXs sol;
      boost::apply_visitor(
          [&](const auto &f) { sol = f.solve(pl.rhs[l.which]); }, *l.f);
      d.vec(sol);
      d.vec(l.sol);
    }
  }
  d.i((long)s.copies.size());
  for (auto &k : s.copies)
    dig_cstr(d, k, x);
  d.i(s.set ? 1 + s.set_which : 0);
  if (s.set) {
    int n = pl.p.cstrs[(size_t)s.set_which].fn.nr;
    VectorXs z0 = VectorXs::Constant(n, 0.75), z(n);
    (*s.set)->projection(z0, z);
    d.vec(z);
  }
  d.vec(s.eval_out);
  return d;
}

// ------------------------------------------------------------------ the run
static void gen_ldlt(Ctx &c, Plan &pl, int k) {
  static const LDLTChoice ch[] = {LDLTChoice::BLOCKSPARSE, LDLTChoice::DENSE,
                                  LDLTChoice::BUNCHKAUFMAN, LDLTChoice::EIGEN};
  pl.choice[k] = ch[c.choose(S_CFG, 4)];
  pl.nprim[k] = c.range(S_CFG, 1, 2);
  int nd = c.range(S_CFG, 0, 2);
  int n = 0, n1 = 0;
  for (int i = 0; i < pl.nprim[k] + nd; i++) {
    pl.dims[k].push_back(c.range(S_CFG, 1, 3));
    n += (int)pl.dims[k].back();
    if (i < pl.nprim[k])
      n1 = n;
    pl.perm[k].push_back(i);
  }
  for (std::size_t i = pl.perm[k].size(); i > 1; i--)
    std::swap(pl.perm[k][i - 1], pl.perm[k][c.choose(S_CFG, (uint32_t)i)]);
  for (int j = 0; j < 2; j++) {
    MatrixXs m = MatrixXs::Zero(n, n);
    m.topLeftCorner(n1, n1) = gen_spd(c, S_PROB, n1, 0.5);
    m.bottomLeftCorner(n - n1, n1) = gen_mat(c, S_PROB, n - n1, n1, 2.);
    m.topRightCorner(n1, n - n1) = m.bottomLeftCorner(n - n1, n1).transpose();
    for (int i = n1; i < n; i++)
      m(i, i) = -c.pos(S_PROB, 0.1, 2.);
    pl.mats[k][j] = m;
  }
  pl.rhs[k] = gen_vec(c, S_PROB, n, 2.);
}

static Op gen_op(Ctx &c, const Plan &pl) {
  Op op;
  static const OpKind menu[] = {
      SUM_NEW,       SUM_ADD,        SUM_PLUS_PTR, SUM_PLUS_SUM, SUM_SCALE,
      SUM_CLONE,     SUM_ASSIGN,     SUM_OF_COSTS, SUM_RVALUE,   PROD_NEW,
      PROD_ADD_SPACE, PROD_ADD_POLY, PROD_ADD_PROD, PROD_ASSIGN, PROD_TIMES,
      PROD_USE,      LDLT_NEW,       LDLT_COMPUTE, LDLT_COPY,    LDLT_ASSIGN,
      LDLT_PERMUTE,  LDLT_SOLVE,     CSTR_COPY,    SET_ASSIGN,   EVALUATE,
      MAKE_PROBLEM,  ADD_CSTR,       ADD_CSTR,     NEW_SOLVER,   REGISTER,
      SETUP,         SOLVE,          SOLVE};
  op.kind = menu[c.choose(S_OPS, sizeof menu / sizeof *menu)];
  op.a = (int)c.choose(S_OPS, SLOTS);
  op.b = (int)c.choose(S_OPS, SLOTS);
  op.n = c.range(S_OPS, 0, 3);
  op.flag = c.choose(S_OPS, 2);
  op.w = 0.5 * (1 + (int)c.choose(S_OPS, 5));
  switch (op.kind) {
  case SUM_ADD:
  case SUM_PLUS_PTR:
  case SUM_OF_COSTS:
  case SUM_RVALUE:
    op.n %= (int)pl.costs.size();
    break;
  case PROD_NEW:
  case PROD_ADD_SPACE:
  case PROD_ADD_POLY:
  case PROD_TIMES:
    op.n = 1 + op.n;
    break;
  default:
    break;
  }
  return op;
}

static void run(Ctx &c) {
  GenOpts go;
  go.big = false;
  go.max_n = 4;
  go.allow_fd = true;
  Plan pl;
  pl.p = gen_problem(c, go);
  pl.o = gen_opts(c, pl.p.space, false);
  pl.o.max_iters = (std::size_t)c.range(S_CFG, 2, 8);
  pl.o.max_al = 6;
  if (c.choose(S_CFG, 4) != 3)
    pl.o.verbose = QUIET;
  pl.in = gen_inputs(c, pl.p);
  int nc = c.range(S_CFG, 1, 3);
  for (int i = 0; i < nc; i++)
    pl.costs.push_back(gen_cost(c, go, pl.p.space, 1));
  for (int k = 0; k < SLOTS; k++)
    gen_ldlt(c, pl, k);
  // a story, or a soup
  uint32_t story = c.choose(S_OPS, 4);
  auto push = [&](OpKind k, int a, int b, int n, bool f) {
    Op op;
    op.kind = k;
    op.a = a;
    op.b = b;
    op.n = n;
    op.flag = f;
    pl.ops.push_back(op);
  };
  if (story == 0 || story == 3) {
    push(MAKE_PROBLEM, 0, 0, c.range(S_OPS, 0, 2), false);
    push(NEW_SOLVER, 0, 0, 0, false);
    push(SOLVE, 0, 0, 0, false);
  }
  if (story == 1 || story == 3) {
    push(SUM_NEW, 0, 0, 0, false);
    push(SUM_OF_COSTS, 1, 0, 0, c.choose(S_OPS, 2));
    push(PROD_NEW, 0, 0, 2, true);
  }
  if (story == 2 || story == 3) {
    push(LDLT_NEW, 0, 0, 0, false);
    push(LDLT_NEW, 1, 1, 0, false);
    push(LDLT_COMPUTE, 0, 0, 0, false);
  }
  int extra = c.range(S_OPS, 1, 8);
  for (int i = 0; i < extra; i++)
    pl.ops.push_back(gen_op(c, pl));
  Sink sink;
  struct Fill {
    ~Fill() { set_heap_fill(-1); }
  } restore_fill;
  const std::size_t N = pl.ops.size();
  std::vector<Dig> want(N);
  std::vector<long> need(N, 0);
  std::vector<char> does(N, 0);
  { // anything the process allocates once and for all
    St s(pl);
    for (auto &op : pl.ops)
      exec(s, op);
  }
  long total = 0;
  {
    AllocScope sc;
    {
      St s(pl);
      for (std::size_t i = 0; i < N; i++) {
        long before = sc.count();
        does[i] = exec(s, pl.ops[i]);
        need[i] = sc.count() - before;
        total += need[i];
        want[i] = digest(s);
        if (does[i])
          c.log("%zu %s: %ld allocations", i, kind_names[pl.ops[i].kind],
                need[i]);
      }
    }
    if (sc.live())
      c.fail("leak", "%ld allocations are never released", sc.live());
  }
  if (!total)
    return;
  // where memory runs out: one or more places, by rank among all allocations
  // of an operation
  struct Hole {
    std::size_t op;
    long k, rep;
  };
  int nholes = c.range(S_FAULT, 1, 4);
  std::vector<std::vector<Hole>> holes(N);
  for (int i = 0; i < nholes; i++) {
    std::vector<std::size_t> cand;
    for (std::size_t j = 0; j < N; j++)
      if (need[j])
        cand.push_back(j);
    Hole h;
    h.op = cand[c.choose(S_FAULT, (uint32_t)cand.size())];
    // half of the time near the end, where more has been done already
    long k = (long)c.choose(S_FAULT, (uint32_t)need[h.op]);
    if (c.choose(S_FAULT, 2))
      k = std::max(k, (long)c.choose(S_FAULT, (uint32_t)need[h.op]));
    h.k = k;
    h.rep = c.choose(S_FAULT, 3) == 2 ? 1 + (long)c.choose(S_FAULT, 50) : 1;
    holes[h.op].push_back(h);
    c.log("allocation %ld (x%ld) of operation %zu fails", h.k, h.rep, h.op);
    c.sh((uint64_t)pl.ops[h.op].kind * 1000 + (uint64_t)std::min(h.k, 200L));
  }
  uint32_t fill = c.choose(S_CFG, 3);
  set_heap_fill(fill == 1 ? 0xff : fill == 2 ? 0x41 : -1);
  if (fill)
    fired(F_DIRTY_HEAP);
  AllocScope sc;
  {
    St s(pl);
    Dig now = digest(s);
    for (std::size_t i = 0; i < N; i++) {
      const Op &op = pl.ops[i];
      const char *nm = kind_names[op.kind];
      std::vector<Hole> todo;
      {
        AllocPause p;
        todo = holes[i];
      }
      bool done = false;
      for (auto &h : todo) {
        sc.fail_at(h.k, h.rep);
        Outcome o = attempt([&] {
          exec(s, op);
          return UNINIT;
        });
        bool hit = sc.fired();
        sc.fail_at(-1);
        AllocPause p;
        if (hit) {
          c.nontrivial = true;
        }
        c.log("%s under failure: %s%s", nm, outcome_name(o.kind),
              hit ? "" : " (not reached)");
        if (o.kind == Outcome::RETURNED) {
          done = true;
          if (hit)
            probe("operation survived a failed allocation");
          break;
        }
        if (o.kind != Outcome::BAD_ALLOC)
          c.fail("wrong-error",
                 "a failed allocation in '%s' surfaced as %s (%s)", nm,
                 outcome_name(o.kind), o.what.c_str());
        if (!hit)
          c.fail("spurious", "'%s' threw bad_alloc without a failed allocation",
                 nm);
        probe(strong(op.kind) ? "bad_alloc, all or nothing"
                              : "bad_alloc, usable afterwards");
        if (strong(op.kind)) {
          Dig after = digest(s);
          if (after.v != now.v)
            c.fail("partial", "'%s' failed and left something behind", nm);
        }
      }
      if (!done)
        exec(s, op);
      AllocPause p;
      now = digest(s);
      if (now.v != want[i].v) {
        size_t k = 0;
        while (k < now.v.size() && k < want[i].v.size() &&
               now.v[k] == want[i].v[k])
          k++;
        c.fail("differs",
               "operation %zu (%s) does not give what it gives when no "
               "allocation fails (item %zu of %zu)",
               i, nm, k, want[i].v.size());
      }
      for (auto x : now.v)
        c.h(x);
    }
  }
  if (sc.live())
    c.fail("leak", "%ld allocations are never released after failures",
           sc.live());
}

Registered sim::the_scenario = {
    "C09", run,
    "a case is a program of operations on problems, solvers, costs, spaces, "
    "factorizations, constraints and workspaces in which allocations fail at "
    "seeded places; non-trivial when a failure struck; distinct by the sequence "
    "of (operation, place of the failed allocation)"};
