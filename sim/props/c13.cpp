// C13: what a solver prints is what it did, at the verbosity asked for; and
// printing, or failing to print, never steers a solve.
#include "common.hpp"
#include <sstream>
using namespace w;

struct Row {
  double alpha, prim, dual, merit, dphi, inner, cost;
  std::size_t iter, al;
};
struct Line {
  bool header = false, row = false;
  std::string text;
  std::vector<double> v;
};
static std::vector<Line> parse(const std::string &raw) {
  std::string s;
  for (std::size_t i = 0; i < raw.size(); i++) { // colours are not content
    if (raw[i] == 27) {
      while (i < raw.size() && raw[i] != 'm')
        i++;
      continue;
    }
    s += raw[i];
  }
  std::vector<Line> out;
  std::size_t at = 0;
  while (at <= s.size()) {
    std::size_t e = s.find('\n', at);
    if (e == std::string::npos)
      e = s.size();
    Line l;
    l.text = s.substr(at, e - at);
    at = e + 1;
    if (l.text.find_first_not_of(" \t") == std::string::npos)
      continue;
    if (l.text.find("iter") != std::string::npos &&
        l.text.find("merit") != std::string::npos)
      l.header = true;
    else {
      std::string t;
      for (char ch : l.text) // separators are not ASCII, or a bar
        t += (ch & 0x80) || ch == '|' ? ' ' : ch;
      const char *p = t.c_str();
      for (;;) {
        char *q;
        double d = strtod(p, &q);
        if (q == p)
          break;
        l.v.push_back(d);
        p = q;
      }
      while (*p == ' ')
        p++;
      l.row = !*p && l.v.size() == NUM_KEYS;
    }
    out.push_back(l);
  }
  return out;
}
static bool shown(double disp, double act) {
  if (act != act || disp != disp)
    return act != act && disp != disp;
  if (std::isinf(act) || std::isinf(disp))
    return act == disp;
  return std::abs(disp - act) <= 0.006 * std::abs(act) + 1e-300;
}

static void check_output(Ctx &c, const std::string &data, bool verbose,
                         bool active, const std::vector<Row> &rows,
                         const Outcome &r, ConvergenceFlag stored, bool cut,
                         bool clean) {
  std::vector<Line> ls = parse(data);
  if (!verbose) {
    if (!data.empty())
      c.fail("not-quiet", "a quiet solve printed %zu bytes: \"%s\"",
             data.size(), ls.empty() ? "" : ls[0].text.c_str());
    return;
  }
  std::size_t n = 0, headers = 0;
  bool success = false, maxit = false;
  for (std::size_t k = 0; k < ls.size(); k++) {
    Line &l = ls[k];
    if (l.header) {
      headers++;
      continue;
    }
    if (l.text.find("success") != std::string::npos) {
      success = true;
      continue;
    }
    if (l.text.find("Max number of iterations") != std::string::npos) {
      maxit = true;
      continue;
    }
    if (!l.row) {
      if (cut && k + 1 == ls.size())
        continue; // the write that failed may have been partial
      c.fail("garbled", "line \"%s\" is neither header, iteration nor outcome",
             l.text.c_str());
    }
    if (n >= rows.size())
      c.fail("row", "more iterations were printed than made");
    const Row &w = rows[n++];
    if (l.v[0] != (double)(w.iter + 1) || !shown(l.v[1], w.alpha) ||
        !shown(l.v[3], w.prim) || !shown(l.v[4], w.dual) ||
        !shown(l.v[6], w.dphi) || !shown(l.v[7], w.merit) ||
        l.v[9] != (double)(w.al + 1))
      c.fail("row",
             "iteration %zu (step %g, residuals %g %g, slope %g, merit %g, "
             "outer %zu) is printed as \"%s\"",
             w.iter + 1, w.alpha, w.prim, w.dual, w.dphi, w.merit, w.al + 1,
             l.text.c_str());
    // the criterion the subproblem is solved to, before the step
    if (std::abs(l.v[2] - w.inner) > 0.006 * w.inner + 1e-12)
      c.fail("row", "iteration %zu had an inner criterion of %g, printed as "
                    "\"%s\"", w.iter + 1, w.inner, l.text.c_str());
    if (!(l.v[5] >= 0))
      c.fail("row", "iteration %zu is printed with a negative regularisation: "
                    "\"%s\"", w.iter + 1, l.text.c_str());
    // within one subproblem the merit starts where it was left
    if (clean && n > 1 && rows[n - 2].al == w.al) {
      const Row &u = rows[n - 2];
      double d = w.merit - u.merit;
      if (std::isfinite(d) &&
          std::abs(l.v[8] - d) >
              0.006 * std::abs(d) +
                  1e-7 * (std::abs(w.merit) + std::abs(u.merit) +
                          std::abs(w.cost) + std::abs(u.cost)))
        c.fail("row", "iteration %zu changed the merit by %g, printed as "
                      "\"%s\"", w.iter + 1, d, l.text.c_str());
      probe("merit change compared");
    }
  }
  if (cut)
    return;
  std::size_t want = active ? rows.size() : 0;
  if (n != want)
    c.fail("row", "%zu iterations were printed, %zu were made%s", n,
           rows.size(), active ? "" : " with an inactive logger");
  if (active ? headers < 1 : headers > 0)
    c.fail("header", "%zu headers were printed", headers);
  // a final callback that throws comes after the outcome
  ConvergenceFlag end = r.kind ? stored : r.flag;
  bool may = r.kind != Outcome::RETURNED;
  if ((success && end != SUCCESS) || (maxit && end != MAX_ITERS_REACHED) ||
      (!may && (success != (end == SUCCESS) ||
                maxit != (end == MAX_ITERS_REACHED))))
    c.fail("outcome", "the solve ended with flag %d (%s), the output says %s",
           (int)r.flag, outcome_name(r.kind),
           success ? "success" : maxit ? "max iterations" : "nothing");
}

// what the results display is what they hold
static void check_display(Ctx &c, const Results &q) {
  std::ostringstream os;
  os << q;
  std::string s = os.str();
  auto numbers = [&](const std::string &key) {
    std::vector<double> v;
    std::size_t at = s.find("\n  " + key + ":");
    if (at == std::string::npos)
      c.fail("display", "the displayed results do not have \"%s\"",
             key.c_str());
    at += key.size() + 4;
    std::string l = s.substr(at, s.find('\n', at) - at);
    const char *p = l.c_str();
    while (*p == ' ' || *p == '[')
      p++;
    for (;;) {
      char *e;
      double d = strtod(p, &e);
      if (e == p)
        break;
      v.push_back(d);
      for (p = e; *p == ',' || *p == ' ' || *p == ']'; p++)
        ;
    }
    return v;
  };
  auto one = [&](const char *key, double want) {
    std::vector<double> v = numbers(key);
    if (v.size() != 1 || !shown(v[0], want))
      c.fail("display", "the results hold %s = %.9g and display \"%s\"", key,
             want, s.c_str());
  };
  one("merit", q.merit);
  one("value", q.value);
  one("num_iters", (double)q.num_iters);
  one("mu", q.mu);
  one("rho", q.rho);
  one("dual_infeas", q.dual_infeas);
  one("prim_infeas", q.prim_infeas);
  std::vector<double> v = numbers("cstr_values");
  bool ok = (long)v.size() == q.constraint_violations.size();
  for (std::size_t i = 0; ok && i < v.size(); i++)
    ok = shown(v[i], q.constraint_violations[(long)i]);
  for (std::size_t i = 0; ok && i < q.active_set.size(); i++) {
    v = numbers("activeSet[" + std::to_string(i) + "]");
    ok = (long)v.size() == q.active_set[i].size();
    for (std::size_t k = 0; ok && k < v.size(); k++)
      ok = v[k] == (double)q.active_set[i][(long)k];
  }
  if (!ok)
    c.fail("display", "the results display other values than they hold: \"%s\"",
           s.c_str());
}

static void run(Ctx &c) {
  GenOpts go;
  ProbSpec p = gen_problem(c, go);
  c.log("%s", describe(p).c_str());
  World wa(p), wb(p);
  Solver a(*wa.prob), b(*wb.prob);
  OptSpec o = gen_opts(c, p.space);
  auto setup = [&] {
    OptSpec q = o;
    q.apply(a);
    a.setup();
    q.verbose = QUIET;
    q.apply(b);
    b.setup();
  };
  std::vector<Row> rows;
  auto ra = std::make_shared<Recorder>(), rb = std::make_shared<Recorder>();
  ra->extra = [&](const Workspace &ws, const Results &q) {
    VectorXs g = ws.dual_residual;
    if (o.rho > 0)
      g += ws.prox_grad;
    double inner = g.size() ? g.lpNorm<Eigen::Infinity>() : 0;
    if (ws.numdual)
      inner = std::max(inner, ws.kkt_rhs.tail(ws.numdual)
                                  .lpNorm<Eigen::Infinity>());
    rows.push_back({ws.alpha_opt, q.prim_infeas, q.dual_infeas, q.merit,
                    ws.dmerit_dir, inner, q.value, q.num_iters, q.al_iters});
  };
  a.registerCallback(ra);
  b.registerCallback(rb);
  if (!o.max_iters)
    o.max_iters = 1;
  setup();
  int n = c.range(S_OPS, 1, c.thorough ? 6 : 4), id = 1;
  bool changed = false, faulty = false, active = true;
  int last = -1;
  for (int k = 0; k < n; k++) {
    if (k && c.choose(S_OPS, 4) == 3) {
      o = gen_opts(c, p.space);
      setup();
    }
    VerboseLevel v = (VerboseLevel)c.choose(S_OPS, 3);
    if (c.choose(S_OPS, 6) == 5)
      a.logger.active = active = !active;
    a.verbose = v;
    b.verbose = QUIET;
    changed |= last >= 0 && last != (int)v;
    last = (int)v;
    Inputs in = gen_inputs(c, p);
    Task ta, tb;
    if (c.choose(S_FAULT, 3) == 2)
      ta.faults.push_back(
          gen_fault(c, FM_THROWS | FM_VALUES | FM_CB, gen_at(c, 7), id++));
    tb.faults = ta.faults;
    Snapshot sa, sb;
    Outcome oa, ob;
    Sink sink;
    {
      TaskGuard g(&tb);
      rb->into = &sb;
      ob = attempt([&] { return b.solve(in.x0, in.l0); });
    }
    if (!sink.data.empty())
      c.fail("not-quiet", "a quiet solve printed %zu bytes", sink.data.size());
    sink.writes = 0;
    if (c.choose(S_FAULT, 3) == 2) {
      sink.fail_at = gen_at(c, 6);
      sink.fail_repeat = c.choose(S_FAULT, 2) ? 1 : 1000000;
    }
    rows.clear();
    {
      TaskGuard g(&ta);
      ra->into = &sa;
      oa = attempt([&] { return a.solve(in.x0, in.l0); });
    }
    std::size_t logged = rows.size();
    // the last call is the final one
    if (!oa.kind && logged)
      logged--;
    rows.resize(logged);
    c.log("solve %d verbose %d: %s flag %d, %zu rows, %zu bytes%s", k, (int)v,
          outcome_name(oa.kind), (int)oa.flag, rows.size(), sink.data.size(),
          sink.fired ? ", a write failed" : "");
    c.h(sink.data.size());
    c.hs(sink.data);
    bool lost = sink.fired && oa.kind && oa.kind != ob.kind;
    faulty |= sink.fired || oa.kind;
    if (lost) { // the failed write was reported to the caller
      probe("failed write raised an error");
      if (v == QUIET)
        c.fail("not-quiet", "a quiet solve failed because of the output");
      for (std::size_t i = 0; i < sa.traj.size(); i++)
        if (i >= sb.traj.size() || !bits(sa.traj[i], sb.traj[i]))
          c.fail("steered", "iterate %zu differs from that of a quiet solve", i);
      if (!finite(a.results_->x_opt) ||
          (!sa.traj.empty() &&
           !bits(a.results_->x_opt,
                 sa.traj.back().head(a.results_->x_opt.size()))))
        c.fail("steered", "the failed write damaged the stored iterate");
    } else {
      if (sink.fired)
        probe("failed write did not end the solve");
      std::string d;
      if (oa.kind != ob.kind || oa.flag != ob.flag || oa.inj_id != ob.inj_id)
        d = "the outcome differs";
      else
        {
        Snapshot fa = snap(a, oa), fb = snap(b, ob);
        fa.traj = sa.traj;
        fb.traj = sb.traj;
        fa.scal = sa.scal;
        fb.scal = sb.scal;
        d = diff(fa, fb);
      }
      if (!d.empty())
        c.fail("steered", "a solve with verbosity %d differs from a quiet one: "
                          "%s",
               (int)v, d.c_str());
    }
    check_output(c, sink.data, v != QUIET, active, rows, oa,
                 a.results_->converged, sink.fired, ta.faults.empty());
    probe(v == QUIET ? "quiet solve" : "verbose solve");
    check_display(c, *a.results_);
    if (lost) // forget it, on both sides
      setup();
    c.sh((uint64_t)v + 3 * sink.fired + 6 * (uint64_t)oa.kind);
    c.sh(rows.size());
    for (auto &t : sa.traj)
      hv(c, t);
  }
  c.nontrivial = changed && faulty;
}
Registered sim::the_scenario = {
    "C13", run,
    "a case is a history of 1-4 (6) solves on one solver with changing "
    "verbosity, options and logger activation, under failing writes, user "
    "errors and callback errors, against a quiet twin; non-trivial when the "
    "verbosity changed and a fault hit; distinct by verbosities, outcomes and "
    "iteration counts"};
