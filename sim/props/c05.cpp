// C05: independent clients do not influence each other, however they are
// interleaved or nested.
#include "common.hpp"
#include <proxsuite-nlp/bfgs-strategy.hpp>
#include <proxsuite-nlp/ldlt-allocator.hpp>
#include <proxsuite-nlp/linesearch-armijo.hpp>
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>
using namespace w;

struct Digest {
  Outcome out;
  std::vector<double> v;
  Snapshot s;
  void add(const VectorXs &x) { v.insert(v.end(), x.data(), x.data() + x.size()); }
  void add(const MatrixXs &x) { v.insert(v.end(), x.data(), x.data() + x.size()); }
};
static std::string cmp(const Digest &a, const Digest &b) {
  if (a.out.kind != b.out.kind)
    return std::string("outcome ") + outcome_name(a.out.kind) + " vs " +
           outcome_name(b.out.kind) + " " + a.out.what + b.out.what;
  std::string d = diff(a.s, b.s);
  if (!d.empty())
    return d;
  if (a.v.size() != b.v.size())
    return "amount of output";
  for (size_t i = 0; i < a.v.size(); i++)
    if (!same_bits(a.v[i], b.v[i])) {
      char t[100];
      snprintf(t, 100, "output %zu: %.17g vs %.17g", i, a.v[i], b.v[i]);
      return t;
    }
  return "";
}

// A client owns every object with mutable state that it uses.
struct Client {
  const char *name = "";
  std::vector<Fault> faults;
  std::function<void(Digest &)> body; // must not consume the tape
  std::function<Digest(Task &)> runner() const {
    auto b = body;
    return [b](Task &) {
      Digest d;
      d.out = attempt([&] {
        b(d);
        return UNINIT;
      });
      return d;
    };
  }
};

static void solve_body(Digest &d, Problem &prob, const OptSpec &o,
                       const Inputs &in, int times) {
  Solver s(prob);
  o.apply(s);
  s.setup();
  auto rec = std::make_shared<Recorder>();
  Snapshot tr;
  rec->into = &tr;
  s.registerCallback(rec);
  auto hist = std::make_shared<helpers::history_callback<double>>(
      false, false, false);
  s.registerCallback(hist);
  for (int i = 0; i < times; i++) {
    Outcome q = attempt([&] { return s.solve(in.x0, in.l0); });
    d.s = snap(s, q);
    d.s.traj = tr.traj;
    d.s.scal = tr.scal;
    d.v.push_back((double)hist->storage.prim_infeas.size());
    for (double z : hist->storage.prim_infeas)
      d.v.push_back(z);
  }
}

static Client gen_client(Ctx &c, shared_ptr<World> shared, const ProbSpec *sps) {
  Client k;
  uint32_t kind = c.choose(S_OPS, 10);
  if (kind <= 4) { // a solve of its own problem
    GenOpts go;
    go.max_n = 4;
    go.max_cstr = 2;
    go.big = c.thorough;
    bool share = shared && c.choose(S_OPS, 2);
    ProbSpec p = share ? *sps : gen_problem(c, go);
    OptSpec o = gen_opts(c, p.space);
    o.max_iters = std::min<std::size_t>(o.max_iters, 25);
    Inputs in = gen_inputs(c, p);
    int times = c.range(S_OPS, 1, 2);
    uint32_t nf = c.choose(S_FAULT, 3);
    for (uint32_t i = 0; i + 1 < nf; i++)
      k.faults.push_back(gen_fault(c, FM_ALL, gen_at(c, 7), (int)i));
    k.name = share ? "solve (copied constraints)" : "solve";
    c.log("client %s: %s | %s", k.name, describe(p).c_str(),
          describe(o).c_str());
    if (share)
      k.body = [=](Digest &d) {
        // same functions and space, copies of everything that has state
        std::vector<Cstr> cs;
        for (size_t i = 0; i < shared->prob->getNumConstraints(); i++)
          cs.push_back(shared->prob->getConstraint(i));
        Keep keep;
        Problem pr(shared->prob->manifold_, build_cost(p.cost, p.space, keep),
                   cs);
        solve_body(d, pr, o, in, times);
      };
    else
      k.body = [=](Digest &d) {
        World wd(p);
        solve_body(d, *wd.prob, o, in, times);
      };
  } else if (kind == 5) { // factorisations
    int n = c.range(S_PROB, 1, 7), m = c.range(S_PROB, 0, 5);
    static const LDLTChoice ld[] = {LDLTChoice::BUNCHKAUFMAN,
                                    LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE,
                                    LDLTChoice::EIGEN};
    LDLTChoice ch = ld[c.choose(S_CFG, 4)];
    std::vector<MatrixXs> ms;
    for (int r = 0; r < 2; r++) {
      MatrixXs H = gen_spd(c, S_PROB, n, 0.5), K(n + m, n + m);
      MatrixXs J = gen_mat(c, S_PROB, m, n, 1.);
      K.setZero();
      K.topLeftCorner(n, n) = H;
      K.bottomLeftCorner(m, n) = J;
      K.topRightCorner(n, m) = J.transpose();
      K.bottomRightCorner(m, m).diagonal().setConstant(-0.1);
      ms.push_back(K);
    }
    VectorXs b = gen_vec(c, S_PROB, n + m, 1.);
    k.name = "factorisation";
    k.body = [=](Digest &d) {
      std::vector<isize> nd;
      if (m)
        nd.push_back(m);
      auto l = allocate_ldlt_from_sizes<double>({n}, nd, ch);
      for (auto &K : ms) {
        boost::apply_visitor([&](auto &&f) { f.compute(K); }, l);
        VectorXs x = b;
        boost::apply_visitor([&](auto &&f) { f.solveInPlace(x); }, l);
        d.add(x);
      }
    };
  } else if (kind == 6) { // modelling layer
    GenOpts go;
    go.max_n = 4;
    ProbSpec p = gen_problem(c, go);
    std::vector<VectorXs> xs;
    for (int i = 0; i < 3; i++)
      xs.push_back(gen_point(c, S_DATA, p.space, 1.5));
    k.name = "evaluation";
    k.body = [=](Digest &d) {
      World wd(p);
      Workspace ws(*wd.prob);
      for (auto &x : xs) {
        wd.prob->evaluate(x, ws);
        wd.prob->computeDerivatives(x, ws);
        wd.prob->computeHessians(x, ws, true);
        d.v.push_back(ws.objective_value);
        d.add(ws.data_cstr_values);
        d.add(ws.objective_gradient);
        d.add(ws.objective_hessian);
        d.add(ws.data_jacobians);
        for (size_t i = 0; i < wd.prob->getNumConstraints(); i++) {
          const Set &st = *wd.prob->getConstraint(i).set_;
          VectorXs z = ws.cstr_values[i], o1 = z, o2 = z;
          st.setProxParameter(0.1);
          st.projection(z, o1);
          st.normalConeProjection(z, o2);
          d.add(o1);
          d.add(o2);
        }
      }
    };
  } else if (kind >= 8) { // finite differences
    GenOpts go;
    go.max_n = 4;
    SpaceSpec sp = gen_space(c, go);
    FnSpec f;
    f.kind = FnSpec::SMOOTH;
    f.nr = c.range(S_PROB, 1, 4);
    for (int i = 0; i < f.nr; i++)
      f.f.push_back(gen_smooth(c, sp.nx()));
    std::vector<VectorXs> xs, vs;
    for (int i = 0; i < 2; i++) {
      xs.push_back(gen_point(c, S_DATA, sp, 1.5));
      vs.push_back(gen_vec(c, S_DATA, f.nr, 1.));
    }
    k.name = "finite differences";
    k.body = [=](Digest &d) {
      using namespace autodiff;
      auto m = sp.make();
      SeamFn fn(std::make_shared<PureFn>(sp, f.f));
      finite_difference_wrapper<double, TOC1> a(*m, fn, 1e-5);
      finite_difference_wrapper<double, TOC2> b(*m, fn, 1e-5);
      for (size_t i = 0; i < xs.size(); i++) {
        MatrixXs J = MatrixXs::Zero(f.nr, sp.ndx()),
                 H = MatrixXs::Zero(sp.ndx(), sp.ndx());
        a.computeJacobian(xs[i], J);
        d.add(J);
        b.computeJacobian(xs[i], J);
        d.add(J);
        b.vectorHessianProduct(xs[i], vs[i], H);
        d.add(H);
        d.add(VectorXs(a(xs[i])));
      }
    };
  } else { // quasi-Newton updates and line searches
    int n = c.range(S_PROB, 1, 5);
    std::vector<VectorXs> xs;
    for (int i = 0; i < 5; i++)
      xs.push_back(gen_vec(c, S_DATA, n, 1.));
    MatrixXs Q = gen_spd(c, S_PROB, n, 0.3);
    double q = c.pos(S_PROB, 1., 300.);
    k.name = "bfgs and line search";
    k.body = [=](Digest &d) {
      BFGSStrategy<double, BFGSType::Hessian> b(n);
      MatrixXs H = MatrixXs::Identity(n, n);
      LSOptions lo;
      ArmijoLinesearch<double> ls(lo);
      for (auto &x : xs) {
        VectorXs g = Q * x;
        b.update(x, g, H);
        d.add(H);
        double a = 0.;
        double r = ls.run(
            [&](double t) {
              seam(SITE_OTHER);
              return -t + q * t * t + x[0] * t * t * t;
            },
            0., -1., a);
        d.v.push_back(a);
        d.v.push_back(r);
      }
    };
  }
  if (kind > 4)
    c.log("client %s", k.name);
  c.sh(kind);
  return k;
}

// a digest as bytes, to come out of a process
struct Bytes {
  std::string b;
  size_t pos = 0;
  bool out;
  template <class T> void raw(T &x) {
    if (out)
      b.append((const char *)&x, sizeof x);
    else {
      memcpy((void *)&x, b.data() + pos, sizeof x);
      pos += sizeof x;
    }
  }
  template <class C> void seq(C &v, size_t n) {
    raw(n);
    if (!out)
      v.resize((decltype(v.size()))n);
    for (size_t i = 0; i < n; i++)
      raw(v[(decltype(v.size()))i]);
  }
  void outcome(Outcome &o) {
    raw(o.kind);
    raw(o.inj_id);
    raw(o.flag);
    seq(o.what, o.what.size());
  }
  void digest(Digest &d) {
    outcome(d.out);
    seq(d.v, d.v.size());
    Snapshot &s = d.s;
    outcome(s.out);
    seq(s.x, (size_t)s.x.size());
    seq(s.lam, (size_t)s.lam.size());
    for (double *p : {&s.value, &s.merit, &s.prim, &s.dual, &s.mu, &s.rho})
      raw(*p);
    raw(s.iters);
    raw(s.al);
    raw(s.converged);
    seq(s.scal, s.scal.size());
    size_t n = s.traj.size();
    raw(n);
    s.traj.resize(n);
    for (auto &t : s.traj)
      seq(t, (size_t)t.size());
  }
};

// alone: in a process of its own, in which nothing ran before
static Digest solo(const Client &k, long &evals) {
  Bytes in;
  in.out = false;
  in.b = isolated([&] {
    Task t;
    t.id = 100;
    t.faults = k.faults;
    TaskGuard tg(&t);
    Bytes o;
    o.out = true;
    Digest d = k.runner()(t);
    o.digest(d);
    o.raw(t.evals);
    return o.b;
  });
  Digest d;
  in.digest(d);
  in.raw(evals);
  return d;
}

static void report(Ctx &c, size_t i, const Client &k, const Digest &alone,
                   const Digest &now, long e0, long e1, const char *how) {
  for (double v : now.v)
    c.hd(v);
  hash_snap(c, now.s);
  std::string e = cmp(alone, now);
  if (e.empty() && e0 != e1)
    e = "evaluation count";
  if (!e.empty())
    c.fail(how, "client %zu (%s): %s", i, k.name, e.c_str());
}

static void run(Ctx &c) {
  Sink sink;
  shared_ptr<World> shared;
  ProbSpec sps;
  if (c.choose(S_CFG, 3) == 2) {
    GenOpts go;
    go.max_n = 4;
    go.max_cstr = 2;
    sps = gen_problem(c, go);
    bool stateful = false; // a residual cost is not shareable
    for (auto &q : sps.cstrs)
      stateful |= q.fn.kind == FnSpec::COST_AS_FN;
    if (!stateful)
      shared = std::make_shared<World>(sps);
  }
  bool nest = c.choose(S_CFG, 3) == 2;
  int n = c.range(S_OPS, 2, c.thorough ? 4 : 3);
  std::vector<Client> ks;
  for (int i = 0; i < n; i++)
    ks.push_back(gen_client(c, shared, &sps));
  std::vector<Digest> alone(n);
  std::vector<long> ev(n);
  for (int i = 0; i < n; i++)
    alone[i] = solo(ks[i], ev[i]);

  if (nest) { // each client runs inside an evaluation of the previous one
    std::vector<long> at(n);
    for (int i = 0; i < n; i++)
      at[i] = ev[i] ? (long)c.choose(S_SCHED, (uint32_t)ev[i]) : 0;
    std::vector<Digest> now(n);
    std::vector<long> evn(n);
    long depth = 0;
    std::function<void(int)> go = [&](int i) {
      Task t;
      t.id = i;
      t.faults = ks[i].faults;
      t.on_seam = [&, i](Site, long k) {
        if (k == at[i] && i + 1 < n) {
          fired(F_REENTER);
          depth++;
          go(i + 1);
        }
      };
      TaskGuard tg(&t);
      now[i] = ks[i].runner()(t);
      evn[i] = t.evals;
    };
    go(0);
    c.sh((uint64_t)depth);
    c.nontrivial = depth > 0;
    for (int i = 0; i <= depth && i < n; i++) {
      c.sh((uint64_t)evn[i] * 7 + (uint64_t)at[i]);
      report(c, (size_t)i, ks[i], alone[i], now[i], ev[i], evn[i], "nested");
    }
    probe("nested runs");
    return;
  }
  std::vector<Digest> now(n);
  std::vector<Task *> ts(n);
  Sched sc;
  for (int i = 0; i < n; i++) {
    Task **slot = &ts[i];
    Task &t = sc.spawn([&, i, slot] { now[i] = ks[i].runner()(**slot); });
    t.faults = ks[i].faults;
    ts[i] = &t;
  }
  sc.run();
  c.log("%zu switches", sc.switches());
  for (int i = 0; i < n; i++) {
    if (sc.error((size_t)i))
      c.fail("task-error", "client %d (%s) ended with an unexpected exception",
             i, ks[i].name);
    report(c, (size_t)i, ks[i], alone[i], now[i], ev[i], ts[i]->evals,
           "interleaved");
  }
  c.nontrivial = sc.switches() > 0;
}
sim::Registered sim::the_scenario = {
    "C05", run,
    "a case is 2-4 clients (solves with their own faults, factorisations, model "
    "evaluations, quasi-Newton updates) run alone and then interleaved by a "
    "seeded scheduler that preempts at any basic block, or nested inside one "
    "another's evaluations; non-trivial when at least one switch or nesting "
    "happened; distinct by clients, switch points and evaluation counts",
    true};
