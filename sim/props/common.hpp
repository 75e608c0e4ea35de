// Helpers shared by the scenarios.
#pragma once
#include "../world.hpp"

namespace w {

struct TaskGuard {
  Task *old;
  explicit TaskGuard(Task *t) : old(cur_task()) { set_cur_task(t); }
  ~TaskGuard() { set_cur_task(old); }
};

enum FaultMask {
  FM_RUNTIME = 1,
  FM_LOGIC = 2,
  FM_FOREIGN = 4,
  FM_NAN = 8,
  FM_INF = 16,
  FM_NAN_ONE = 32,
  FM_CB = 64,
  FM_THROWS = FM_RUNTIME | FM_LOGIC | FM_FOREIGN,
  FM_VALUES = FM_NAN | FM_INF | FM_NAN_ONE,
  FM_ALL = 127,
  FM_LIE = 128
};
// log-uniform place in a history of unknown length; 0 is the simple choice
inline long gen_at(Ctx &c, int maxmag = 9) {
  uint32_t mag = c.choose(S_FAULT, (uint32_t)maxmag + 1);
  return mag ? (long)c.choose(S_FAULT, 1u << mag) : 0;
}
inline Fault gen_fault(Ctx &c, unsigned mask, long at, int id) {
  static const FaultKind kinds[] = {F_EXC_RUNTIME, F_EXC_LOGIC, F_EXC_OTHER,
                                    F_NAN,         F_INF,       F_NAN_ONE,
                                    F_CB_THROW,    F_LIE};
  std::vector<FaultKind> ok;
  for (int i = 0; i < 8; i++)
    if (mask & (1u << i))
      ok.push_back(kinds[i]);
  Fault f;
  f.kind = ok[c.choose(S_FAULT, (uint32_t)ok.size())];
  f.at = at;
  f.repeat = c.choose(S_FAULT, 3) == 2 ? 1 + (long)c.choose(S_FAULT, 40) : 1;
  bool exc = f.kind == F_EXC_RUNTIME || f.kind == F_EXC_LOGIC ||
             f.kind == F_EXC_OTHER || f.kind == F_CB_THROW;
  f.arg = exc ? (uint32_t)id : c.choose(S_FAULT, 64);
  return f;
}

inline bool has_fd(const FnSpec &f) { return f.kind == FnSpec::FD; }
inline bool has_fd(const ProbSpec &p) {
  for (auto &q : p.cstrs)
    if (has_fd(q.fn))
      return true;
  return false;
}
inline bool has_l1(const SetSpec &s) {
  if (s.kind == SetSpec::L1)
    return true;
  for (auto &q : s.parts)
    if (has_l1(q))
      return true;
  return false;
}

// Is (x, lam) what a success claims it is? "" or what is wrong.
// `mu` is the penalty the solver says it ended with.
std::string check_success(const ProbSpec &p, const Results &r, double tol,
                          double mu);
std::string check_reported(const ProbSpec &p, const Results &r, double mu);

inline bool on_space(const SpaceSpec &sp, const VectorXs &x, double eps) {
  long k = 0;
  for (auto &b : sp.blocks) {
    if (b.kind == BlockSpec::S1 || b.kind == BlockSpec::TS1)
      if (!(std::abs(std::hypot(x[k], x[k + 1]) - 1.) < eps))
        return false;
    k += b.nx();
  }
  return true;
}

struct Inputs {
  VectorXs x0, l0;
};
inline Inputs gen_inputs(Ctx &c, const ProbSpec &p, double lim = 2.) {
  Inputs in;
  in.x0 = gen_point(c, S_DATA, p.space, lim);
  in.l0 = c.choose(S_DATA, 3) == 1 ? gen_vec(c, S_DATA, total_dim(p), 2.)
                                   : VectorXs::Zero(total_dim(p));
  return in;
}
} // namespace w
