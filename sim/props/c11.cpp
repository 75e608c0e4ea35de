// C11: a factorization object, whatever it went through, factorizes the last
// matrix it was given: accurately, and exactly as a new object would.
#include "common.hpp"
#include <iostream>
#include <sstream>
#include <Eigen/Eigenvalues>
#include <Eigen/QR>
using namespace w;
using linalg::BlockKind;
using linalg::SymbolicBlockMatrix;
using Block = linalg::BlockLDLT<double>;
using DenseF = linalg::DenseLDLT<double>;
using BK = BunchKaufman<MatrixXs>;
using EigF = Eigen::LDLT<MatrixXs>;
using Var = LDLTVariant<double>;

enum Kind { BLOCK, DENSE, BKAUF, EIG };
static const char *const kind_name[] = {"BlockLDLT", "DenseLDLT",
                                        "BunchKaufman", "Eigen::LDLT"};

struct Shape { // block structure of the input matrices
  std::vector<isize> lens;
  std::vector<BlockKind> kind; // row major, symmetric
  std::size_t np = 0;          // blocks [0,np) positive, the others negative
  bool deflt = false;          // what the solver uses
  bool tri = false;            // has triangular blocks
  isize n() const { return std::accumulate(lens.begin(), lens.end(), isize(0)); }
  BlockKind at(std::size_t i, std::size_t j) const {
    return kind[i * lens.size() + j];
  }
};

struct Sym { // owns a library structure
  SymbolicBlockMatrix s;
  explicit Sym(const Shape &sh) : s((isize)sh.lens.size(), (isize)sh.lens.size()) {
    for (std::size_t i = 0; i < sh.lens.size(); i++) {
      s.segment_lens[i] = sh.lens[i];
      for (std::size_t j = 0; j < sh.lens.size(); j++)
        s((isize)i, (isize)j) = sh.at(i, j);
    }
  }
  Sym(const Sym &) = delete;
  ~Sym() {
    delete[] s.m_data;
    delete[] s.segment_lens;
  }
};

struct Input {
  MatrixXs m;
  bool finite = true;
  int pos = 0, neg = 0;
  double norm = 0;
};

struct Rnd {
  Rng r;
  explicit Rnd(uint32_t s) : r(s * 0x9e3779b9ull + 17) {}
  double u() { return (double)(r.next() >> 11) / 9007199254740992.; }
  double sym() { return std::round(64. * (2. * u() - 1.)) / 32.; }
};

static BlockKind flipped(BlockKind k) {
  return k == linalg::TriU   ? linalg::TriL
         : k == linalg::TriL ? linalg::TriU
                             : k;
}

// Block elimination on patterns only. A lower-triangular block below a diagonal
// pivot is the one case the block factorization is allowed to refuse.
static bool may_refuse(const Shape &s, const std::vector<isize> &perm) {
  std::size_t n = s.lens.size();
  std::vector<BlockKind> k(n * n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
      k[i * n + j] = perm.empty() ? s.at(i, j)
                                  : s.at((std::size_t)perm[i],
                                         (std::size_t)perm[j]);
  auto join = [](BlockKind a, BlockKind b) {
    if (a == linalg::Zero || a == b)
      return b;
    if (b == linalg::Zero)
      return a;
    if (a == linalg::Diag)
      return b;
    if (b == linalg::Diag)
      return a;
    return linalg::Dense;
  };
  for (std::size_t p = 0; p < n; p++) {
    bool dense = k[p * n + p] != linalg::Diag;
    for (std::size_t i = p + 1; i < n; i++) {
      BlockKind &b = k[i * n + p];
      if (dense) // the most pessimistic fill
        b = b == linalg::Diag || b == linalg::Zero ? linalg::TriU
            : b == linalg::TriL                    ? linalg::Dense
                                                   : b;
      else if (b == linalg::TriL)
        return true;
    }
    for (std::size_t i = p + 1; i < n; i++)
      for (std::size_t j = p + 1; j <= i; j++) {
        BlockKind a = k[i * n + p], b = flipped(k[j * n + p]);
        BlockKind q = a == linalg::Zero || b == linalg::Zero ? linalg::Zero
                                                             : join(a, b);
        k[i * n + j] = join(k[i * n + j], q);
        k[j * n + i] = flipped(k[i * n + j]);
      }
  }
  return false;
}

static Shape gen_shape(Ctx &c) {
  Shape s;
  std::size_t nb = (std::size_t)c.range(S_CFG, 1, 5);
  s.np = 1 + c.choose(S_CFG, (uint32_t)nb);
  s.deflt = c.choose(S_CFG, 2) == 0;
  bool same = c.choose(S_CFG, 3) == 2;
  isize len0 = c.range(S_CFG, 1, 4);
  for (std::size_t i = 0; i < nb; i++)
    s.lens.push_back(same ? len0 : c.range(S_CFG, 1, 4));
  if (c.choose(S_CFG, 12) == 11) // beyond the blocking thresholds
    s.lens[0] = c.range(S_CFG, 33, 70);
  else if (c.choose(S_CFG, 60) == 59)
    s.lens[0] = c.range(S_CFG, 129, 140);
  s.kind.assign(nb * nb, linalg::Dense);
  for (std::size_t i = 0; i < nb; i++)
    for (std::size_t j = 0; j <= i; j++) {
      BlockKind k = linalg::Dense;
      if (s.deflt) {
        if (j >= s.np)
          k = i == j ? linalg::Diag : linalg::Zero;
      } else if (i == j) {
        k = c.choose(S_CFG, 2) ? linalg::Diag : linalg::Dense;
      } else {
        uint32_t w = c.choose(S_CFG, 5);
        static const BlockKind all[] = {linalg::Dense, linalg::Zero,
                                        linalg::Diag, linalg::TriU,
                                        linalg::TriL};
        k = all[w];
        if (w >= 2 && s.lens[i] != s.lens[j])
          k = linalg::Dense;
      }
      s.kind[i * nb + j] = k;
      s.kind[j * nb + i] = flipped(k);
      s.tri |= k == linalg::TriU || k == linalg::TriL;
    }
  return s;
}

// quasi-definite, with the sparsity of the shape
static Input gen_matrix(Ctx &c, const Shape &s, bool general) {
  Rnd r(c.choose(S_PROB, 1u << 20));
  isize n = s.n();
  Input in;
  in.m = MatrixXs::Zero(n, n);
  uint32_t mode = c.choose(S_PROB, 3); // 0 mixed, 1 all positive, 2 all negative
  isize oi = 0;
  for (std::size_t i = 0; i < s.lens.size(); i++) {
    isize oj = 0;
    for (std::size_t j = 0; j <= i; j++) {
      BlockKind k = s.at(i, j);
      for (isize a = 0; a < s.lens[i]; a++)
        for (isize b = 0; b < s.lens[j]; b++) {
          double v = r.sym();
          if (k == linalg::Zero || (k == linalg::Diag && a != b) ||
              (k == linalg::TriU && a > b) || (k == linalg::TriL && a < b))
            v = 0;
          if (oi + a > oj + b)
            in.m(oi + a, oj + b) = in.m(oj + b, oi + a) = v;
        }
      oj += s.lens[j];
    }
    oi += s.lens[i];
  }
  isize npos = 0;
  for (std::size_t i = 0; i < s.np; i++)
    npos += s.lens[i];
  if (mode == 1)
    npos = n;
  else if (mode == 2)
    npos = 0;
  if (general) {
    for (isize i = 0; i < n; i++)
      in.m(i, i) = r.u() < 0.5 ? 0. : r.sym();
  } else {
    for (isize i = 0; i < n; i++) {
      bool p = i < npos;
      double sum = 0.25 + r.u();
      for (isize j = 0; j < n; j++)
        if (j != i && (j < npos) == p)
          sum += std::abs(in.m(i, j));
      in.m(i, i) = p ? sum : -sum;
    }
  }
  in.norm = in.m.cwiseAbs().rowwise().sum().maxCoeff();
  if (general) {
    Eigen::SelfAdjointEigenSolver<MatrixXs> es(in.m, Eigen::EigenvaluesOnly);
    double lo = 1e300;
    for (isize i = 0; i < n; i++) {
      double e = es.eigenvalues()[i];
      (e > 0 ? in.pos : in.neg)++;
      lo = std::min(lo, std::abs(e));
    }
    if (lo < 1e-4 * in.norm)
      return gen_matrix(c, s, false);
  } else {
    in.pos = (int)npos;
    in.neg = (int)(n - npos);
  }
  return in;
}

struct Obj {
  Kind kind = BLOCK;
  int shape = 0;
  std::unique_ptr<Var> f;
  // configuration of the block version
  bool analysed = false, searched = false;
  std::vector<isize> perm;
  // last matrix given to it
  int mat = -1;
  bool ok() const { return f && mat >= 0; }
};

static std::unique_ptr<Var> make(Kind k, const Shape &s) {
  isize n = s.n();
  switch (k) {
  case BLOCK: {
    Sym sy(s);
    Block b(n, sy.s);
    return std::make_unique<Var>(b);
  }
  case DENSE:
    return std::make_unique<Var>(DenseF(n));
  case BKAUF:
    return std::make_unique<Var>(BK(n));
  default:
    return std::make_unique<Var>(EigF(n));
  }
}
static void configure(Var &v, const Obj &o) {
  if (o.kind != BLOCK || !o.analysed)
    return;
  Block &b = boost::get<Block>(v);
  if (o.searched)
    b.findSparsifyingPermutation();
  else if (!o.perm.empty())
    b.setBlockPermutation(o.perm.data());
  else
    b.analyzePattern();
}
static void factorize(Var &v, const MatrixXs &m) {
  boost::apply_visitor([&](auto &f) { f.compute(m); }, v);
}
static int info_of(const Var &v) {
  return boost::apply_visitor([](const auto &f) { return (int)f.info(); }, v);
}
static MatrixXs solve(const Var &v, const MatrixXs &b, bool inplace) {
  MatrixXs x = b;
  if (inplace)
    boost::apply_visitor([&](const auto &f) { f.solveInPlace(x); }, v);
  else
    boost::apply_visitor([&](const auto &f) { x = f.solve(b); }, v);
  return x;
}

struct View {
  int info = 0, sign = -1;
  MatrixXs x, rec, ldu;
  VectorXs d;
  Eigen::VectorXi sig;
};
struct Look : boost::static_visitor<void> {
  View &w;
  explicit Look(View &v) : w(v) {}
  template <class F> void ours(const F &f) const {
    w.d = f.vectorD();
    if (!bits(w.d, f.matrixLDLT().diagonal()))
      w.d.resize(0);
    w.sign = (int)f.sign();
    w.rec = f.reconstructedMatrix();
    ComputeSignatureVisitor{w.sig}(f);
  }
  void operator()(const Block &f) const {
    ours(f);
    MatrixXs l = f.matrixL(), u = f.matrixU();
    w.ldu = l * f.vectorD().asDiagonal() * u;
    auto p = f.permutationP();
    w.ldu = p * w.ldu * p.transpose();
  }
  void operator()(const DenseF &f) const { ours(f); }
  void operator()(const EigF &f) const {
    w.rec = f.reconstructedMatrix();
    ComputeSignatureVisitor{w.sig}(f);
  }
  void operator()(const BK &f) const { ComputeSignatureVisitor{w.sig}(f); }
};
static View look(const Var &v, const MatrixXs &rhs, bool inplace) {
  View r;
  r.info = info_of(v);
  if (r.info != Eigen::Success)
    return r;
  r.x = solve(v, rhs, inplace);
  Look l(r);
  boost::apply_visitor(l, v);
  return r;
}
static bool bitsm(const MatrixXs &a, const MatrixXs &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++)
      if (!same_bits(a(i, j), b(i, j)))
        return false;
  return true;
}

static MatrixXs patterned(Rnd &r, BlockKind k, isize rows, isize cols) {
  MatrixXs m(rows, cols);
  for (isize b = 0; b < cols; b++)
    for (isize a = 0; a < rows; a++) {
      double v = r.sym();
      m(a, b) = k == linalg::Zero || (k == linalg::Diag && a != b) ||
                        (k == linalg::TriU && a > b) ||
                        (k == linalg::TriL && a < b)
                    ? 0.
                    : v;
    }
  return m;
}

// The pieces of the block factorization, against their dense counterparts.
static void kernels(Ctx &c) {
  Rnd r(c.choose(S_PROB, 1u << 20));
  for (int t = 0; t < 4; t++) {
    static const BlockKind all[] = {linalg::Zero, linalg::Diag, linalg::TriL,
                                    linalg::TriU, linalg::Dense};
    BlockKind kl = all[c.choose(S_CFG, 5)], kr = all[c.choose(S_CFG, 5)];
    isize k = c.range(S_CFG, 1, 5), m = k, n = k;
    if (kl == linalg::Dense || kl == linalg::Zero)
      m = c.range(S_CFG, 1, 5);
    if (kr == linalg::Dense || kr == linalg::Zero)
      n = c.range(S_CFG, 1, 5);
    MatrixXs a = patterned(r, kl, m, k), b = patterned(r, kr, n, k);
    MatrixXs dst = patterned(r, linalg::Dense, m, n);
    double alpha = r.sym();
    MatrixXs want = dst + alpha * (a * b.transpose());
    linalg::backend::gemmt(dst, a, b, kl, kr, alpha);
    double e = (dst - want).cwiseAbs().maxCoeff();
    if (!(e <= 1e-12))
      c.fail("kernel", "product of a %c block with a %c' block is off by %g",
             "ZDLUX"[kl], "ZDLUX"[kr], e);
    probe("product of two blocks");
  }
  // triangular systems
  std::vector<isize> lens((std::size_t)c.range(S_CFG, 1, 4));
  isize n = 0;
  for (auto &l : lens)
    n += l = c.range(S_CFG, 1, 4);
  SymbolicBlockMatrix lo(lens);
  isize nb = (isize)lens.size();
  MatrixXs m = MatrixXs::Zero(n, n);
  isize oi = 0;
  for (isize i = 0; i < nb; i++) {
    isize oj = 0;
    for (isize j = 0; j < nb; j++) {
      BlockKind k = linalg::Zero;
      if (i == j)
        k = c.choose(S_CFG, 2) ? linalg::TriL : linalg::Diag;
      else if (j < i) {
        static const BlockKind all[] = {linalg::Dense, linalg::Zero,
                                        linalg::Diag, linalg::TriU,
                                        linalg::TriL};
        k = all[c.choose(S_CFG, 5)];
        if (lens[(std::size_t)i] != lens[(std::size_t)j] && k != linalg::Zero)
          k = linalg::Dense;
      }
      lo(i, j) = k;
      m.block(oi, oj, lens[(std::size_t)i], lens[(std::size_t)j]) =
          patterned(r, k, lens[(std::size_t)i], lens[(std::size_t)j]);
      oj += lens[(std::size_t)j];
    }
    oi += lens[(std::size_t)i];
  }
  m *= 0.125;
  for (isize i = 0; i < n; i++)
    m(i, i) = r.u() < 0.5 ? 1.5 : -2.;
  SymbolicBlockMatrix up = lo.transpose();
  MatrixXs x(n, 1 + (isize)c.choose(S_CFG, 3)), tr = m.transpose();
  for (long k = 0; k < x.size(); k++)
    x(k % n, k / n) = r.sym();
  for (int u = 0; u < 8; u++) {
    bool unit = u & 1, upper = u & 2, plain = u & 4;
    MatrixXs t = upper ? tr : m;
    if (unit)
      t.diagonal().setOnes();
    MatrixXs b = t * x;
    bool ok;
    MatrixXs &arg = upper ? tr : m;
    const SymbolicBlockMatrix &st = upper ? up : lo;
#define SOLVE(MODE)                                                            \
  {                                                                            \
    linalg::TriangularBlockMatrix<MatrixXs, MODE> tb(arg, st);                 \
    ok = plain ? tb.template solveInPlace<MatrixXs, false>(b)                  \
               : tb.solveInPlace(b);                                           \
  }
    if (upper && unit)
      SOLVE(Eigen::UnitUpper)
    else if (upper)
      SOLVE(Eigen::Upper)
    else if (unit)
      SOLVE(Eigen::UnitLower)
    else
      SOLVE(Eigen::Lower)
#undef SOLVE
    double e = (b - x).cwiseAbs().maxCoeff();
    if (!ok || !(e <= 1e-9))
      c.fail("kernel", "%s block-triangular system (%s): %s, off by %g",
             upper ? "upper" : "lower", unit ? "unit" : "general",
             ok ? "solved" : "refused", e);
  }
  probe("block-triangular system");
  { // what is displayed of a pattern
    std::ostringstream os;
    struct Redirect {
      std::streambuf *old;
      explicit Redirect(std::streambuf *b) : old(std::cout.rdbuf(b)) {}
      ~Redirect() { std::cout.rdbuf(old); }
    } to(os.rdbuf());
    linalg::print_sparsity_pattern(lo);
    std::string want, full = "\u2588\u2588", none = "\u2591\u2591";
    oi = 0;
    for (isize i = 0; i < nb; i++) {
      for (isize a = 0; a < lens[(std::size_t)i]; a++) {
        for (isize j = 0; j < nb; j++)
          for (isize b = 0; b < lens[(std::size_t)j]; b++) {
            BlockKind k = lo(i, j);
            want += k == linalg::Dense || (k == linalg::Diag && a == b) ||
                            (k == linalg::TriL && a >= b) ||
                            (k == linalg::TriU && a <= b)
                        ? full
                        : none;
          }
        want += "\n";
      }
    }
    if (os.str() != want)
      c.fail("pattern", "pattern displayed as\n%s\ninstead of\n%s",
             os.str().c_str(), want.c_str());
  }
  for (auto *s : {&lo, &up}) {
    delete[] s->m_data;
    delete[] s->segment_lens;
  }
}

static void run(Ctx &c) {
  if (c.choose(S_CFG, 4) == 3)
    kernels(c);
  const int NS = 2, NM = 6, NO = 3;
  std::vector<Shape> shapes;
  std::vector<std::vector<Input>> mats(NS);
  std::vector<MatrixXs> rhs;
  for (int i = 0; i < NS; i++) {
    Shape s = gen_shape(c);
    shapes.push_back(s);
    isize n = s.n();
    for (int k = 0; k < NM; k++)
      mats[(size_t)i].push_back(gen_matrix(c, s, k >= 4));
    uint32_t bad = c.choose(S_FAULT, 8); // one matrix is broken
    if (bad >= 5) {
      Input &in = mats[(size_t)i][2];
      isize a = (isize)c.choose(S_FAULT, (uint32_t)n);
      isize b = (isize)c.choose(S_FAULT, (uint32_t)n);
      in.finite = false;
      in.m(a, b) = in.m(b, a) = bad == 5 ? kNaN : bad == 6 ? kInf : -kInf;
    }
    Rnd r(c.choose(S_PROB, 1u << 16));
    MatrixXs b(n, 1 + (isize)c.choose(S_PROB, 3));
    for (long k = 0; k < b.size(); k++)
      b(k % n, k / n) = r.sym();
    rhs.push_back(b);
    std::string ks;
    for (std::size_t a = 0; a < s.lens.size(); a++) {
      ks += " " + std::to_string(s.lens[a]);
      for (std::size_t q = 0; q <= a; q++)
        ks += "ZDLUX"[s.at(a, q)];
    }
    c.log("shape %d: n=%ld np=%zu%s", i, (long)n, s.np, ks.c_str());
  }
  struct Fill {
    ~Fill() { set_heap_fill(-1); }
  } restore_fill;
  uint32_t fill = c.choose(S_CFG, 3);
  set_heap_fill(fill == 1 ? 0xff : fill == 2 ? 0x41 : -1);
  if (fill)
    fired(F_DIRTY_HEAP);
  AllocScope sc;
  {
    Obj obj[NO];
    auto check = [&](Obj &o, const char *why) {
      const Shape &s = shapes[(size_t)o.shape];
      const Input &in = mats[(size_t)o.shape][(size_t)o.mat];
      const MatrixXs &b = rhs[(size_t)o.shape];
      bool inplace = c.choose(S_OPS, 2);
      View v = look(*o.f, b, inplace);
      set_heap_fill(fill == 1 ? -1 : fill == 2 ? 0xff : 0x41);
      auto fresh = make(o.kind, s);
      configure(*fresh, o);
      factorize(*fresh, in.m);
      View w = look(*fresh, b, inplace);
      set_heap_fill(fill == 1 ? 0xff : fill == 2 ? 0x41 : -1);
      const char *nm = kind_name[o.kind];
      if (v.info != w.info)
        c.fail("history", "%s says %d where a new one says %d (%s)", nm, v.info,
               w.info, why);
      for (long k = 0; k < v.x.size(); k++)
        c.hd(v.x(k));
      c.h((uint64_t)v.info);
      c.sh((uint64_t)o.kind * 1000 + (uint64_t)s.n() * 10 + (uint64_t)o.mat);
      c.nontrivial = true;
      if (v.info != Eigen::Success) {
        probe("factorization reported a failure");
        if (o.kind == BLOCK && s.tri && may_refuse(s, o.perm)) {
          probe("pattern refused by the block factorization");
          return;
        }
        if (in.finite && !(o.kind == EIG) && o.mat < 4)
          c.fail("refused", "%s refuses a quasi-definite matrix (%s)", nm, why);
        return;
      }
      if (!bitsm(v.x, w.x))
        c.fail("history", "%s does not solve like a new one (%s)", nm, why);
      if (v.sign != w.sign)
        c.fail("history", "%s: sign %d, a new one says %d (%s)", nm, v.sign,
               w.sign, why);
      if (!bitsm(v.rec, w.rec))
        c.fail("history", "%s does not reconstruct like a new one (%s)", nm,
               why);
      if (!bits(v.d, w.d))
        c.fail("history", "%s: D differs from a new one's (%s)", nm, why);
      if (v.sig.size() != w.sig.size() || (v.sig - w.sig).any())
        c.fail("history", "%s: signature differs from a new one's (%s)", nm,
               why);
      if (!in.finite)
        return;
      bool general = o.mat >= 4;
      if (general && o.kind != BKAUF)
        return; // not stable without 2x2 pivots: nothing promised
      // accuracy, against the matrix itself
      double err = 0, xn = v.x.cwiseAbs().maxCoeff();
      for (long j = 0; j < b.cols(); j++)
        for (long i = 0; i < b.rows(); i++) {
          long double r = b(i, j);
          for (long k = 0; k < b.rows(); k++)
            r -= (long double)in.m(i, k) * v.x(k, j);
          double e = std::abs((double)r);
          if (!(e <= err))
            err = e;
        }
      double lim = 1e-8 * (in.norm * xn + b.cwiseAbs().maxCoeff());
      if (!(err <= lim))
        c.fail("inaccurate", "%s: residual %g for a system of norm %g (%s)", nm,
               err, in.norm, why);
      probe(general ? "accurate on an indefinite system"
                    : "accurate on a quasi-definite system");
      if (v.rec.size()) {
        double e = (v.rec - in.m).cwiseAbs().maxCoeff();
        if (!(e <= 1e-7 * in.norm))
          c.fail("reconstruct", "%s: reconstructed matrix is off by %g (%s)",
                 nm, e, why);
      }
      if (o.kind == BLOCK || o.kind == DENSE) {
        if (v.d.size() != s.n())
          c.fail("factors", "%s: D is not the diagonal of the factors (%s)", nm,
                 why);
        for (isize k = 0; k < s.n(); k++)
          if (((v.d[k] > 0) - (v.d[k] < 0)) != v.sig[k])
            c.fail("factors", "%s: D[%ld]=%g but signature %d (%s)", nm,
                   (long)k, v.d[k], v.sig[k], why);
      }
      if (o.kind == BLOCK) {
        double e = (v.ldu - in.m).cwiseAbs().maxCoeff();
        if (!(e <= 1e-7 * in.norm))
          c.fail("factors", "%s: P L D U P' is off by %g (%s)", nm, e, why);
        if (s.tri)
          probe("accurate with triangular blocks");
      }
      auto t = computeInertiaTuple(v.sig);
      if (t[0] != in.pos || t[1] != in.neg || t[2] != 0)
        c.fail("inertia", "%s: inertia (%d,%d,%d) instead of (%d,%d,0) (%s)",
               nm, t[0], t[1], t[2], in.pos, in.neg, why);
      if (v.sign >= 0) {
        int want = in.neg == 0   ? (int)linalg::SignMatrix::PositiveSemiDef
                   : in.pos == 0 ? (int)linalg::SignMatrix::NegativeSemiDef
                                 : (int)linalg::SignMatrix::Indefinite;
        if (v.sign != want)
          c.fail("sign", "%s: sign %d instead of %d (%s)", nm, v.sign, want,
                 why);
      }
      // other units for the unknowns: the same solution in these units
      if ((o.kind == BLOCK || o.kind == DENSE) && c.choose(S_PROB, 3) == 2) {
        isize n = s.n();
        uint32_t how = c.choose(S_PROB, 2);
        VectorXs d(n);
        isize i = 0;
        for (std::size_t q = 0; q < s.lens.size(); q++) {
          int e = c.range(S_PROB, -30, 30);
          for (isize k = 0; k < s.lens[q]; k++, i++)
            d[i] = std::ldexp(1., how ? c.range(S_PROB, -30, 30) : e);
        }
        MatrixXs m = d.asDiagonal() * in.m * d.asDiagonal();
        auto g = make(o.kind, s);
        configure(*g, o);
        factorize(*g, m);
        View u = look(*g, d.asDiagonal() * b, inplace);
        if (u.info != Eigen::Success)
          c.fail("units", "%s refuses a matrix in other units", nm);
        MatrixXs x = d.asDiagonal() * u.x, r = u.rec;
        if (!((x - v.x).cwiseAbs().maxCoeff() <= 1e-8 * xn))
          c.fail("units", "%s: the solution depends on the units: %g vs %g",
                 nm, x.cwiseAbs().maxCoeff(), xn);
        for (isize a = 0; a < r.rows(); a++)
          for (isize k = 0; k < r.cols(); k++)
            if (!(std::abs(r(a, k) / (d[a] * d[k]) - in.m(a, k)) <=
                  1e-7 * in.norm))
              c.fail("units", "%s does not reconstruct in other units", nm);
        if ((u.sig - v.sig).any() || u.sign != v.sign)
          c.fail("units", "%s: the signature depends on the units", nm);
        probe("solved in other units");
      }
    };
    int nops = c.range(S_OPS, 3, 16);
    for (int i = 0; i < nops; i++) {
      Obj &o = obj[c.choose(S_OPS, NO)];
      if (!o.f) {
        o.kind = (Kind)c.choose(S_OPS, 4);
        o.shape = (int)c.choose(S_OPS, NS);
        o.f = make(o.kind, shapes[(size_t)o.shape]);
        c.log("%d: new %s on shape %d", (int)(&o - obj), kind_name[o.kind],
              o.shape);
      }
      const Shape &s = shapes[(size_t)o.shape];
      auto *blk = o.kind == BLOCK ? boost::get<Block>(o.f.get()) : nullptr;
      switch (c.choose(S_OPS, 8)) {
      case 0:
      case 1:
      case 2: { // compute
        if (blk && !o.analysed) {
          blk->analyzePattern();
          o.analysed = true;
        }
        int k = (int)c.choose(S_OPS, NM);
        const MatrixXs &m = mats[(size_t)o.shape][(size_t)k].m;
        if (c.choose(S_FAULT, 8) == 7) { // out of memory on the way
          sc.fail_at((long)c.choose(S_FAULT, 4), 1);
          o.mat = -1;
          Outcome out = attempt([&] {
            factorize(*o.f, m);
            return UNINIT;
          });
          bool hit = sc.fired();
          sc.fail_at(-1);
          if (out.kind != Outcome::RETURNED && out.kind != Outcome::BAD_ALLOC)
            c.fail("wrong-error", "%s::compute: %s", kind_name[o.kind],
                   outcome_name(out.kind));
          if (hit) {
            probe("compute ran out of memory");
            if (out.kind == Outcome::BAD_ALLOC)
              break;
          }
        } else
          factorize(*o.f, m);
        o.mat = k;
        if (!mats[(size_t)o.shape][(size_t)k].finite)
          fired(F_NAN);
        c.log("%d: compute %d", (int)(&o - obj), k);
        check(o, "after compute");
        break;
      }
      case 3: { // copy
        Obj &p = obj[c.choose(S_OPS, NO)];
        if (!p.f || &p == &o)
          break;
        uint32_t how = c.choose(S_OPS, 3);
        c.log("%d: %s of %d", (int)(&o - obj),
              how == 0   ? "copy"
              : how == 1 ? "assignment"
                         : "move",
              (int)(&p - obj));
        probe(how == 0 ? "copied" : how == 1 ? "assigned" : "moved");
        if (how == 0)
          o.f = std::make_unique<Var>(*p.f);
        else if (how == 1)
          *o.f = *p.f;
        else
          *o.f = std::move(*p.f);
        o.kind = p.kind;
        o.shape = p.shape;
        o.analysed = p.analysed;
        o.searched = p.searched;
        o.perm = p.perm;
        o.mat = p.mat;
        if (how == 2)
          p = Obj();
        if (o.ok())
          check(o, "after copy");
        if (p.ok())
          check(p, "copied from");
        break;
      }
      case 4:
      case 5: { // permutation
        if (!blk)
          break;
        o.mat = -1;
        o.analysed = true;
        uint32_t how = c.choose(S_OPS, 4);
        if (how == 0) {
          blk->findSparsifyingPermutation();
          o.searched = true;
          // it is remembered: a later call without argument uses it
          o.perm = blk->blockPermIndices();
        } else if (how == 3) {
          if (o.perm.empty())
            for (std::size_t k = 0; k < s.lens.size(); k++)
              o.perm.push_back((isize)k);
          o.searched = false;
          blk->setBlockPermutation();
        } else {
          std::vector<isize> q;
          for (std::size_t k = 0; k < s.lens.size(); k++)
            q.push_back((isize)k);
          for (std::size_t k = q.size(); k > 1; k--)
            std::swap(q[k - 1], q[c.choose(S_OPS, (uint32_t)k)]);
          o.perm = q;
          o.searched = false;
          blk->setBlockPermutation(q.data());
        }
        probe("permutation changed");
        c.log("%d: permutation (%u)", (int)(&o - obj), how);
        // a permutation of the unknowns, whatever happened before
        isize n = s.n();
        Eigen::VectorXi seen = Eigen::VectorXi::Zero(n);
        auto ind = blk->permutationP().indices();
        if (ind.size() != n)
          c.fail("permutation", "wrong number of indices");
        for (isize k = 0; k < n; k++) {
          if (ind[k] < 0 || ind[k] >= n || seen[ind[k]]++)
            c.fail("permutation", "not a permutation of the unknowns");
        }
        if (!blk->structure().performed_llt)
          c.fail("permutation", "the structure was not analysed");
        break;
      }
      case 6: // another look at an old factorization
        if (o.ok())
          check(o, "later");
        break;
      case 7: // drop it
        o = Obj();
        break;
      }
    }
    for (auto &o : obj)
      if (o.ok())
        check(o, "at the end");
  }
  if (sc.live() > 0 && c.tracing)
    c.log("%ld live", sc.live());
}

Registered sim::the_scenario = {
    "C11", run, 
    "a case is a history of matrices, permutations, copies, moves and faults on "
    "up to a few factorization objects; non-trivial when an object that had a "
    "past was compared with a new one; distinct by the sequence of "
    "(factorization, size, kind of matrix)"};
