// C10: polymorphic values (and the spaces, sets and constraints built of them)
// behave as values whatever the history, allocators and faults.
#include "common.hpp"
#include <set>
using namespace w;

// ------------------------------------------------------------ first part:
// the handle itself, with instrumented types and allocators
namespace handle {
struct Ledger { // what exists
  std::map<const void *, std::pair<int, std::size_t>> mem; // block: alloc, size
  std::map<const void *, int> obj;                         // object: type
  long copies = 0, moves = 0, allocs = 0;
  long alloc_fault = -1, copy_fault = -1; // countdowns
  bool broken = false;
  std::string why;
  void bad(const std::string &s) {
    if (!broken)
      why = s;
    broken = true;
  }
};
static Ledger *L;

template <bool CopyA, bool MoveA, bool SwapA, bool Select> struct Traits {
  static constexpr bool ca = CopyA, ma = MoveA, sa = SwapA, sel = Select;
};
template <class T, class Tr> struct SimAlloc {
  using value_type = T;
  using propagate_on_container_copy_assignment =
      std::integral_constant<bool, Tr::ca>;
  using propagate_on_container_move_assignment =
      std::integral_constant<bool, Tr::ma>;
  using propagate_on_container_swap = std::integral_constant<bool, Tr::sa>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind {
    using other = SimAlloc<U, Tr>;
  };
  int id = 0;
  SimAlloc() = default;
  explicit SimAlloc(int i) : id(i) {}
  template <class U> SimAlloc(const SimAlloc<U, Tr> &o) : id(o.id) {}
  SimAlloc select_on_container_copy_construction() const {
    return Tr::sel ? *this : SimAlloc(0);
  }
  T *allocate(std::size_t n) {
    if (L->alloc_fault >= 0 && L->alloc_fault-- == 0) {
      fired(F_ALLOC);
      throw std::bad_alloc();
    }
    L->allocs++;
    void *p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
    L->mem[p] = {id, n * sizeof(T)};
    return (T *)p;
  }
  void deallocate(T *p, std::size_t n) {
    auto it = L->mem.find(p);
    if (it == L->mem.end()) {
      L->bad("released a block that is not allocated");
      return;
    }
    if (it->second.first != id)
      L->bad("released a block with an allocator that did not allocate it");
    if (it->second.second != n * sizeof(T))
      L->bad("released a block with another size than it was allocated with");
    L->mem.erase(it);
    ::operator delete((void *)p, std::align_val_t(alignof(T)));
  }
  friend bool operator==(const SimAlloc &a, const SimAlloc &b) {
    return a.id == b.id;
  }
  friend bool operator!=(const SimAlloc &a, const SimAlloc &b) {
    return a.id != b.id;
  }
};

struct Tree { // the reference
  int kind = 0, v = 0;
  bool gone = false; // valueless
  std::vector<Tree> sub;
  std::string str() const {
    if (gone)
      return "-";
    std::string s = std::to_string(kind) + ":" + std::to_string(v);
    if (!sub.empty()) {
      s += "(";
      for (auto &t : sub)
        s += t.str() + " ";
      s += ")";
    }
    return s;
  }
};

static void copied() {
  L->copies++;
  if (L->copy_fault >= 0 && L->copy_fault-- == 0) {
    fired(F_EXC_RUNTIME);
    throw InjRuntime(77);
  }
}
static const int GONE = -1000;

struct Base {
  int v = 0;
  explicit Base(int x = 0) : v(x) { reg(0); }
  Base(std::initializer_list<int> l, int x) : v(x + 1000 * (int)l.size()) {
    reg(0);
  }
  Base(const Base &o) : v(o.v) {
    copied();
    reg(0);
  }
  Base(Base &&o) : v(o.v) {
    L->moves++;
    o.v = GONE;
    reg(0);
  }
  Base &operator=(const Base &) = default;
  virtual ~Base() {
    if (!L->obj.erase(this))
      L->bad("destroyed an object that does not exist");
  }
  void reg(int) {
    if (!L->obj.emplace(this, 0).second)
      L->bad("created an object over another one");
  }
  virtual int kind() const { return 0; }
  virtual Tree tree() const {
    Tree t;
    t.kind = kind();
    t.v = v;
    return t;
  }
  virtual const void *self() const { return this; }
};
struct Small : Base {
  using Base::Base;
  Small(const Small &) = default;
  Small(Small &&) = default;
  int kind() const override { return 1; }
};
struct Pad {
  virtual ~Pad() = default;
  long pad[3] = {1, 2, 3};
};
struct Multi : Pad, Base { // the base is not at the start of the object
  using Base::Base;
  Multi(const Multi &) = default;
  Multi(Multi &&) = default;
  int kind() const override { return 2; }
};
struct alignas(64) Aligned : Base {
  char big[128];
  using Base::Base;
  Aligned(const Aligned &) = default;
  Aligned(Aligned &&) = default;
  int kind() const override {
    if ((uintptr_t)this % 64)
      L->bad("misaligned object");
    return 3;
  }
};
struct CopyOnly : Base { // no move: moving copies
  using Base::Base;
  CopyOnly(const CopyOnly &) = default;
  int kind() const override { return 4; }
};
struct Final final : Small {
  using Small::Small;
  int kind() const override { return 5; }
};
template <class A> struct Node : Base {
  using P = xyz::polymorphic<Base, A>;
  std::vector<P> sub;
  using Base::Base;
  Node(const Node &) = default;
  Node(Node &&o) : Base(std::move(o)), sub(std::move(o.sub)) {}
  int kind() const override { return 6; }
  Tree tree() const override {
    Tree t = Base::tree();
    for (auto &p : sub) {
      Tree s;
      s.gone = p.valueless_after_move();
      if (!s.gone)
        s = p->tree();
      t.sub.push_back(s);
    }
    return t;
  }
};

template <class A> static int id_of(const A &a) {
  if constexpr (std::is_same_v<A, std::allocator<Base>>)
    return 0;
  else
    return a.id;
}
template <class A> static A mk_alloc(int id) {
  if constexpr (std::is_same_v<A, std::allocator<Base>>)
    return A();
  else
    return A(id);
}

template <class A> struct Run {
  using P = xyz::polymorphic<Base, A>;
  using N = Node<A>;
  using AT = std::allocator_traits<A>;
  static constexpr bool always = AT::is_always_equal::value;
  static constexpr int NS = 5;
  Ctx &c;
  Ledger led;
  std::unique_ptr<P> s[NS];
  Tree m[NS];
  int al[NS] = {};
  int faults = 0, failed = 0, unequal = 0, nested = 0;

  explicit Run(Ctx &c_) : c(c_) { L = &led; }
  ~Run() {
    for (auto &p : s)
      p.reset();
    L = nullptr;
  }

  template <class U> P *make(int how, int id, int v) {
    A a = mk_alloc<A>(id);
    if constexpr (std::is_default_constructible_v<A>) {
      if (how == 4)
        return new P(xyz::in_place_type_t<U>{}, v);
      if (how == 5)
        return new P(U(v));
      if (how == 6)
        return new P(xyz::in_place_type_t<U>{}, {1, 2}, v);
    }
    switch (how) {
    case 0:
      return new P(std::allocator_arg, a, xyz::in_place_type_t<U>{}, v);
    case 1:
      return new P(std::allocator_arg, a, xyz::in_place_type_t<U>{}, {7, 8, 9},
                   v);
    case 2:
      return new P(std::allocator_arg, a, U(v));
    default: {
      U u(v);
      return new P(std::allocator_arg, a, u);
    }
    }
  }
  P *make(int kind, int how, int id, int v) {
    switch (kind) {
    case 0:
      if (how == 7)
        return new P();
      if (how == 8)
        return new P(std::allocator_arg, mk_alloc<A>(id));
      return make<Base>(how, id, v);
    case 1:
      return make<Small>(how, id, v);
    case 2:
      return make<Multi>(how, id, v);
    case 3:
      return make<Aligned>(how, id, v);
    case 4:
      return make<CopyOnly>(how, id, v);
    case 5:
      return make<Final>(how, id, v);
    default:
      return make<N>(how, id, v);
    }
  }

  Tree read(const P &p) {
    Tree t;
    if (p.valueless_after_move())
      t.gone = true;
    else
      t = p->tree();
    return t;
  }
  void arm() {
    led.alloc_fault = led.copy_fault = -1;
    uint32_t f = c.choose(S_FAULT, 4);
    if (f == 2)
      led.alloc_fault = c.choose(S_FAULT, 5);
    else if (f == 3)
      led.copy_fault = c.choose(S_FAULT, 5);
  }
  void disarm() { led.alloc_fault = led.copy_fault = -1; }

  void check(const char *op) {
    disarm();
    std::set<const void *> seen;
    for (int i = 0; i < NS; i++) {
      if (!s[i])
        continue;
      if (id_of(s[i]->get_allocator()) != al[i])
        c.fail("allocator", "after %s, handle %d uses allocator %d, expected %d",
               op, i, id_of(s[i]->get_allocator()), al[i]);
      std::string got = read(*s[i]).str(), want = m[i].str();
      if (got != want)
        c.fail("value", "after %s, handle %d holds %s, expected %s", op, i,
               got.c_str(), want.c_str());
      walk(*s[i], seen, op, al[i]);
      c.hs(got);
      c.h(al[i]);
    }
    if (led.broken)
      c.fail("memory", "during %s: %s", op, led.why.c_str());
    if (seen.size() != led.obj.size())
      c.fail("leak", "after %s, %zu objects exist but %zu are reachable", op,
             led.obj.size(), seen.size());
  }
  void walk(const P &p, std::set<const void *> &seen, const char *op, int) {
    if (p.valueless_after_move())
      return;
    const Base *b = &*p;
    if (!seen.insert(b).second)
      c.fail("shared", "after %s, two handles share an object", op);
    if (!led.obj.count(b))
      c.fail("dangling", "after %s, a handle holds a destroyed object", op);
    if (p.operator->() != b)
      c.fail("shared", "-> and * differ");
    if (b->kind() == 6)
      for (auto &q : static_cast<const N &>(*b).sub)
        walk(q, seen, op, 0);
  }

  // runs op under faults; true if it went through
  template <class F> bool attempt_op(const char *name, F f) {
    arm();
    long cp = led.copies;
    (void)cp;
    bool ok = true;
    try {
      f();
    } catch (const std::bad_alloc &) {
      ok = false;
    } catch (const InjRuntime &e) {
      ok = false;
      if (e.id != 77)
        throw;
    }
    disarm();
    c.log("%s%s", name, ok ? "" : " failed");
    if (!ok)
      failed++;
    return ok;
  }
  int pick() { return c.range(S_OPS, 0, NS - 1); }

  void run() {
    int n = c.range(S_OPS, 2, c.thorough ? 90 : 60);
    for (int k = 0; k < n; k++)
      step();
    for (int i = 0; i < NS; i++) {
      s[i].reset();
      check("destruction");
    }
    if (!led.obj.empty() || !led.mem.empty())
      c.fail("leak", "%zu objects and %zu blocks are left at the end",
             led.obj.size(), led.mem.size());
  }
  N *node_of(int i) {
    if (!s[i] || s[i]->valueless_after_move() || (**s[i]).kind() != 6)
      return nullptr;
    return static_cast<N *>(&**s[i]);
  }

  void step() {
    enum {
      MAKE,
      DROP,
      COPY,
      COPY_A,
      MOVE,
      MOVE_A,
      ASSIGN,
      MASSIGN,
      SWAP,
      MUTATE,
      PUSH,
      POP,
      CHILD_ASSIGN,
      CHILD_MASSIGN,
      SELF,
      INTO_CHILD,
      NOP
    };
    static const uint8_t weighted[] = {
        MAKE,   MAKE,    MAKE,  MAKE,         PUSH,          PUSH,
        PUSH,   COPY,    COPY_A, MOVE,        MOVE_A,        ASSIGN,
        ASSIGN, MASSIGN, MASSIGN, SWAP,       MUTATE,        POP,
        DROP,   SELF,    INTO_CHILD, CHILD_ASSIGN, CHILD_MASSIGN};
    int op = weighted[c.choose(S_OPS, sizeof weighted)];
    int i = pick(), j = pick();
    c.sh(op);
    c.h(op);
    char nm[64];
    auto name = [&](const char *w) {
      snprintf(nm, sizeof nm, "%s %d<-%d", w, i, j);
      return nm;
    };
    switch (op) {
    case MAKE: {
      int kind = (int)std::min(6u, c.choose(S_OPS, 12)), how = c.choose(S_OPS, 9),
          id = c.choose(S_OPS, 3), v = c.range(S_OPS, 1, 99);
      c.sh(kind * 9 + how);
      Tree t;
      t.kind = kind;
      t.v = v;
      if (always || how == 4 || how == 5 || how == 6)
        id = 0;
      if (how == 1)
        t.v += 3000;
      if (how == 6)
        t.v += 2000;
      if (how >= 7) {
        if (kind == 0) {
          t.v = 0;
          if (how == 7)
            id = 0;
        }
      }
      std::unique_ptr<P> p;
      if (!attempt_op(name("make"), [&] { p.reset(make(kind, how, id, v)); }))
        break;
      s[i].reset();
      s[i] = std::move(p);
      m[i] = t;
      al[i] = id;
      break;
    }
    case DROP:
      s[i].reset();
      c.log("drop %d", i);
      break;
    case COPY:
    case COPY_A: {
      if (!s[j])
        return;
      int id = al[j];
      std::unique_ptr<P> p;
      bool ok;
      if (op == COPY) {
        id = id_of(AT::select_on_container_copy_construction(
            s[j]->get_allocator()));
        ok = attempt_op(name("copy"), [&] { p.reset(new P(*s[j])); });
      } else {
        if (!always)
          id = c.choose(S_OPS, 3);
        ok = attempt_op(name("copy with allocator"), [&] {
          p.reset(new P(std::allocator_arg, mk_alloc<A>(id), *s[j]));
        });
      }
      if (!ok)
        break;
      if (i == j) { // check both before the old one goes
        Tree t = m[j];
        if (read(*p).str() != t.str())
          c.fail("value", "after %s the copy holds %s, expected %s", nm,
                 read(*p).str().c_str(), t.str().c_str());
      }
      m[i] = m[j];
      s[i].reset();
      s[i] = std::move(p);
      al[i] = id;
      break;
    }
    case MOVE:
    case MOVE_A: {
      if (!s[j])
        return;
      int id = al[j];
      std::unique_ptr<P> p;
      bool ok;
      long work = led.copies + led.moves + led.allocs;
      const Base *old = s[j]->valueless_after_move() ? nullptr : &**s[j];
      if (op == MOVE)
        ok = attempt_op(name("move"), [&] { p.reset(new P(std::move(*s[j]))); });
      else {
        if (!always)
          id = c.choose(S_OPS, 3);
        ok = attempt_op(name("move with allocator"), [&] {
          p.reset(new P(std::allocator_arg, mk_alloc<A>(id), std::move(*s[j])));
        });
      }
      bool eq = id == al[j];
      unequal += !eq;
      if (eq && (!ok || led.copies + led.moves + led.allocs != work ||
                 (old && &**p != old)))
        c.fail("steal",
               "%s between equal allocators did more than hand over the object",
               nm);
      if (!ok)
        break; // the source keeps its value
      Tree t = m[j];
      after_move(j, t, eq);
      if (i != j)
        m[i] = t;
      s[i].reset();
      s[i] = std::move(p);
      m[i] = t;
      al[i] = id;
      break;
    }
    case ASSIGN: {
      if (!s[i] || !s[j])
        return;
      unequal += al[i] != al[j];
      if (attempt_op(name("assign"), [&] { *s[i] = *s[j]; })) {
        m[i] = m[j];
        if (AT::propagate_on_container_copy_assignment::value)
          al[i] = al[j];
      }
      break;
    }
    case MASSIGN: {
      if (!s[i] || !s[j])
        return;
      bool eq = al[i] == al[j];
      unequal += !eq;
      long work = led.copies + led.moves + led.allocs;
      const Base *old = s[j]->valueless_after_move() ? nullptr : &**s[j];
      bool ok =
          attempt_op(name("move-assign"), [&] { *s[i] = std::move(*s[j]); });
      bool steals = eq || AT::propagate_on_container_move_assignment::value;
      if (steals && (!ok || led.copies + led.moves + led.allocs != work ||
                     (old && &**s[i] != old)))
        c.fail("steal", "%s did more than hand over the object", nm);
      if (ok && i != j) {
        Tree t = m[j];
        after_move(j, t, steals);
        m[i] = t;
        if (AT::propagate_on_container_move_assignment::value)
          al[i] = al[j];
      }
      break;
    }
    case SWAP: {
      if (!s[i] || !s[j])
        return;
      constexpr bool prop = AT::propagate_on_container_swap::value;
      if (!prop && al[i] != al[j])
        return; // not allowed
      long work = led.copies + led.moves + led.allocs;
      bool ok = attempt_op(name("swap"), [&] {
        using std::swap;
        if (k_odd())
          swap(*s[i], *s[j]);
        else
          s[i]->swap(*s[j]);
      });
      if (!ok || led.copies + led.moves + led.allocs != work)
        c.fail("steal", "%s did more than exchange the objects", nm);
      std::swap(m[i], m[j]);
      std::swap(al[i], al[j]);
      break;
    }
    case MUTATE:
      if (!s[i] || s[i]->valueless_after_move())
        return;
      (*s[i])->v = m[i].v = c.range(S_OPS, 1, 99);
      c.log("mutate %d", i);
      break;
    case PUSH: {
      N *nd = node_of(i);
      if (!nd || !s[j] || m[i].str().size() > 120)
        return;
      // the vector grows by moving (or copying) its handles
      Tree t = m[j];
      if (attempt_op(name("push child"), [&] { nd->sub.push_back(*s[j]); }))
        m[i].sub.push_back(t);
      nested++;
      break;
    }
    case POP: {
      N *nd = node_of(i);
      if (!nd || nd->sub.empty())
        return;
      std::size_t k = c.choose(S_OPS, (uint32_t)nd->sub.size());
      for (auto &q : nd->sub)
        if (id_of(q.get_allocator()) != id_of(nd->sub[0].get_allocator()))
          return; // shifting moves between unequal allocators
      if (attempt_op(name("erase child"), [&] {
            nd->sub.erase(nd->sub.begin() + (long)k);
          }))
        m[i].sub.erase(m[i].sub.begin() + (long)k);
      else
        c.fail("steal", "erasing a child failed");
      nested++;
      break;
    }
    case CHILD_ASSIGN:
    case CHILD_MASSIGN: { // replace a value by a part of it
      N *nd = node_of(i);
      if (!nd || nd->sub.empty())
        return;
      std::size_t k = c.choose(S_OPS, (uint32_t)nd->sub.size());
      Tree t = m[i].sub[k];
      int cid = id_of(nd->sub[k].get_allocator());
      unequal += cid != al[i];
      bool ok;
      if (op == CHILD_ASSIGN) {
        ok = attempt_op(name("assign own child"), [&] { *s[i] = nd->sub[k]; });
        if (ok && AT::propagate_on_container_copy_assignment::value)
          al[i] = cid;
      } else {
        ok = attempt_op(name("move-assign own child"),
                        [&] { *s[i] = std::move(nd->sub[k]); });
        if (ok && AT::propagate_on_container_move_assignment::value)
          al[i] = cid;
      }
      if (ok)
        m[i] = t;
      nested++;
      break;
    }
    case INTO_CHILD: { // put a value inside itself
      N *nd = node_of(i);
      if (!nd || nd->sub.empty() || m[i].str().size() > 120)
        return;
      std::size_t k = c.choose(S_OPS, (uint32_t)nd->sub.size());
      Tree t = m[i];
      if (attempt_op(name("assign to own child"), [&] { nd->sub[k] = *s[i]; }))
        m[i].sub[k] = t;
      nested++;
      break;
    }
    case SELF: {
      if (!s[i])
        return;
      bool mv = c.choose(S_OPS, 2);
      P &r = *s[i];
      if (!attempt_op(name(mv ? "self move" : "self assign"), [&] {
            if (mv)
              r = std::move(*s[i]);
            else
              r = *s[i];
          }))
        c.fail("steal", "%s failed", nm);
      break;
    }
    }
    check(nm[0] ? nm : "step");
  }
  bool k_odd() { return c.choose(S_OPS, 2); }
  // the source of a move: valueless, or some value of the same type
  void after_move(int j, const Tree &was, bool steals) {
    Tree now = read(*s[j]);
    if (steals && !now.gone)
      c.fail("steal", "a handle that gave its object away still has a value");
    if (!now.gone && now.kind != was.kind)
      c.fail("value", "the source of a move changed type");
    m[j] = now;
  }
};

template <class A> static void go(Ctx &c) {
  Run<A> r(c);
  r.run();
  c.nontrivial = r.failed > 0 && (r.unequal > 0 || r.nested > 0);
  if (r.failed)
    probe("handle operation failed part way", r.failed);
  if (r.unequal)
    probe("handle operation between unequal allocators", r.unequal);
  if (r.nested)
    probe("handle operation on nested values", r.nested);
}
} // namespace handle

// ------------------------------------------------------------ second part:
// spaces, constraint sets and constraints built from such handles
namespace model {
using Prod = CartesianProductTpl<double>;
using ConstraintSet = ConstraintSetTpl<double>;
using ConstraintObject = ConstraintObjectTpl<double>;
using SetProd = ConstraintSetProductTpl<double>;
using PM = polymorphic<Manifold>;
using PS = polymorphic<ConstraintSet>;

struct Ref { // reference for spaces and sets
  int leaf = -1; // leaf: dimension / kind of set
  double mu = 0;
  std::vector<Ref> sub;
  int dim() const {
    if (leaf >= 0)
      return leaf;
    int d = 0;
    for (auto &r : sub)
      d += r.dim();
    return d;
  }
  std::string str() const {
    char b[40];
    snprintf(b, sizeof b, "%d/%g", leaf, mu);
    std::string s = b;
    if (leaf < 0) {
      s += "(";
      for (auto &r : sub)
        s += r.str() + " ";
      s += ")";
    }
    return s;
  }
  void set_mu(double x) {
    mu = x;
    for (auto &r : sub)
      r.set_mu(x);
  }
};
static Ref look(const Manifold &x) {
  Ref r;
  if (auto *p = dynamic_cast<const Prod *>(&x)) {
    for (std::size_t i = 0; i < p->numComponents(); i++)
      r.sub.push_back(look(p->getComponent(i)));
    if (p->nx() != r.dim() || p->ndx() != r.dim())
      g->fail("value", "a product has dimension %d, its components %d", p->nx(),
              r.dim());
  } else
    r.leaf = x.nx();
  return r;
}
static Ref look(const ConstraintSet &x) {
  Ref r;
  r.mu = x.mu();
  if (auto *p = dynamic_cast<const SetProd *>(&x)) {
    for (auto &q : p->components())
      r.sub.push_back(look(*q));
  } else if (dynamic_cast<const EqualityConstraintTpl<double> *>(&x))
    r.leaf = 0;
  else if (dynamic_cast<const NegativeOrthantTpl<double> *>(&x))
    r.leaf = 1;
  else if (auto *b = dynamic_cast<const BoxConstraintTpl<double> *>(&x))
    r.leaf = 100 + (int)b->upper_limit.size();
  else
    r.leaf = 2;
  return r;
}

static constexpr int NS = 4;
static void run(Ctx &c) {
  std::unique_ptr<PM> sp[NS];
  std::unique_ptr<PS> st[NS];
  std::unique_ptr<Prod> pr[NS];
  std::unique_ptr<ConstraintObject> co[NS];
  Ref msp[NS], mst[NS], mpr[NS], mco[NS];
  int failed = 0, done = 0;
  auto attempt_op = [&](const char *name, auto f) {
    Outcome r = attempt([&] {
      AllocScope a;
      if (c.choose(S_FAULT, 4) == 3)
        a.fail_at(c.choose(S_FAULT, 8), c.choose(S_FAULT, 4) == 3 ? 3 : 1);
      f();
      return UNINIT;
    });
    c.log("%s %s", name, outcome_name(r.kind));
    c.h(r.kind);
    if (r.kind && r.kind != Outcome::BAD_ALLOC)
      c.fail("raised", "%s raised %s %s", name, outcome_name(r.kind),
             r.what.c_str());
    failed += r.kind != 0;
    done++;
    return r.kind == 0;
  };
  auto check = [&](const char *op) {
    auto one = [&](const char *what, int i, const Ref &got, const Ref &want) {
      c.hs(got.str());
      if (got.str() != want.str())
        c.fail("value", "after %s, %s %d is %s, expected %s", op, what, i,
               got.str().c_str(), want.str().c_str());
    };
    for (int i = 0; i < NS; i++) {
      if (sp[i] && !sp[i]->valueless_after_move())
        one("space", i, look(**sp[i]), msp[i]);
      if (pr[i])
        one("product", i, look(*pr[i]), mpr[i]);
      if (st[i] && !st[i]->valueless_after_move())
        one("set", i, look(**st[i]), mst[i]);
      if (co[i])
        one("constraint", i, look(*co[i]->set_), mco[i]);
    }
  };
  auto lives = [](auto &p) { return p && !p->valueless_after_move(); };
  int n = c.range(S_OPS, 3, c.thorough ? 90 : 60);
  for (int k = 0; k < n; k++) {
    int op = (int)c.choose(S_OPS, 18), i = c.range(S_OPS, 0, NS - 1),
        j = c.range(S_OPS, 0, NS - 1);
    c.sh(op * 16 + i * 4 + j);
    char nm[64];
    static const char *const names[] = {
        "new space",         "new product",       "product.add(space)",
        "product.add(handle)", "product.add(product)", "space = product",
        "space = space",     "space = part of it", "use space",
        "new set",           "copy set",          "assign set",
        "set product",       "set parameter",     "set = part of it",
        "move set",          "new constraint",    "copy constraint"};
    snprintf(nm, sizeof nm, "%s %d,%d", names[op], i, j);
    switch (op) {
    case 0: {
      int d = c.range(S_OPS, 1, 4);
      std::unique_ptr<PM> p;
      if (attempt_op(nm, [&] { p.reset(new PM(VectorSpaceTpl<double>(d))); })) {
        sp[i] = std::move(p);
        msp[i] = Ref();
        msp[i].leaf = d;
      }
      break;
    }
    case 1: {
      std::unique_ptr<Prod> p;
      Ref r;
      bool ok;
      if (lives(sp[i]) && lives(sp[j])) {
        ok = attempt_op(nm, [&] { p.reset(new Prod(*sp[i], *sp[j])); });
        r.sub = {msp[i], msp[j]};
      } else
        ok = attempt_op(nm, [&] { p.reset(new Prod()); });
      if (ok) {
        pr[i] = std::move(p);
        mpr[i] = r;
      }
      break;
    }
    case 2:
      if (pr[i] && mpr[i].dim() < 40) {
        int d = c.range(S_OPS, 1, 4);
        Ref r;
        r.leaf = d;
        if (attempt_op(nm, [&] {
              pr[i]->addComponent(VectorSpaceTpl<double>(d));
            }))
          mpr[i].sub.push_back(r);
      }
      break;
    case 3:
      if (pr[i] && lives(sp[j]) && mpr[i].dim() < 40)
        if (attempt_op(nm, [&] { pr[i]->addComponent(*sp[j]); }))
          mpr[i].sub.push_back(msp[j]);
      break;
    case 4:
      if (pr[i] && pr[j] && mpr[i].dim() < 40)
        if (attempt_op(nm, [&] { pr[i]->addComponent(*pr[j]); })) {
          auto add = mpr[j].sub;
          mpr[i].sub.insert(mpr[i].sub.end(), add.begin(), add.end());
        }
      break;
    case 5:
      if (pr[j]) {
        std::unique_ptr<PM> p;
        if (attempt_op(nm, [&] { p.reset(new PM(*pr[j])); })) {
          sp[i] = std::move(p);
          msp[i] = mpr[j];
        }
      }
      break;
    case 6:
      if (lives(sp[i]) && lives(sp[j])) {
        bool mv = c.choose(S_OPS, 3) == 2 && i != j;
        if (attempt_op(nm, [&] {
              if (mv)
                *sp[i] = std::move(*sp[j]);
              else
                *sp[i] = *sp[j];
            })) {
          msp[i] = msp[j];
          if (mv)
            sp[j].reset();
        }
      }
      break;
    case 7:
      if (lives(sp[i]) && !msp[i].sub.empty()) {
        std::size_t q = c.choose(S_OPS, (uint32_t)msp[i].sub.size());
        // components are only reachable as const references
        const Manifold &part = static_cast<const Prod &>(**sp[i]).getComponent(q);
        Ref r = msp[i].sub[q];
        if (attempt_op(nm, [&] {
              if (auto *pp = dynamic_cast<const Prod *>(&part))
                *sp[i] = PM(*pp);
              else
                *sp[i] = PM(static_cast<const VectorSpaceTpl<double> &>(part));
            }))
          msp[i] = r;
      }
      break;
    case 8:
      if (lives(sp[i])) {
        int d = msp[i].dim();
        if (!d)
          break;
        VectorXs x(d), v(d), out(d);
        for (int q = 0; q < d; q++) {
          x[q] = c.real(S_DATA, 4.);
          v[q] = c.real(S_DATA, 4.);
        }
        out.setConstant(-77.);
        if (attempt_op(nm, [&] { (*sp[i])->integrate(x, v, out); }))
          if (!out.isApprox(x + v) && !(x + v).isZero() )
            c.fail("value", "integrating in space %s is wrong",
                   msp[i].str().c_str());
      }
      break;
    case 9: {
      int kind = (int)c.choose(S_OPS, 4);
      int d = c.range(S_OPS, 1, 3);
      std::unique_ptr<PS> p;
      if (attempt_op(nm, [&] {
            switch (kind) {
            case 0:
              p.reset(new PS(EqualityConstraintTpl<double>()));
              break;
            case 1:
              p.reset(new PS(NegativeOrthantTpl<double>()));
              break;
            case 2:
              p.reset(new PS(NonsmoothPenaltyL1Tpl<double>()));
              break;
            default: {
              VectorXs u = VectorXs::Ones(d);
              p.reset(new PS(BoxConstraintTpl<double>(-u, u)));
            }
            }
          })) {
        st[i] = std::move(p);
        mst[i] = Ref();
        mst[i].leaf = kind < 3 ? kind : 100 + d;
      }
      break;
    }
    case 10:
      if (lives(st[j])) {
        std::unique_ptr<PS> p;
        if (attempt_op(nm, [&] { p.reset(new PS(*st[j])); })) {
          mst[i] = Ref(mst[j]);
          st[i] = std::move(p);
        }
      }
      break;
    case 11:
      if (lives(st[i]) && lives(st[j]))
        if (attempt_op(nm, [&] { *st[i] = *st[j]; }))
          mst[i] = Ref(mst[j]);
      break;
    case 12:
      if (lives(st[i]) && lives(st[j]) && mst[i].str().size() +
                                                  mst[j].str().size() <
                                              200) {
        std::unique_ptr<PS> p;
        Ref r;
        r.sub = {mst[i], mst[j]};
        if (attempt_op(nm, [&] {
              std::vector<PS> v;
              v.push_back(*st[i]);
              v.push_back(*st[j]);
              p.reset(new PS(SetProd(v, {1, 1})));
            })) {
          st[i] = std::move(p);
          mst[i] = r;
        }
      }
      break;
    case 13:
      if (lives(st[i])) {
        double mu = 0.25 * c.range(S_OPS, 1, 9);
        if (attempt_op(nm, [&] { (*st[i])->setProxParameter(mu); }))
          mst[i].set_mu(mu);
      } else if (co[i]) {
        double mu = 0.25 * c.range(S_OPS, 1, 9);
        if (attempt_op(nm, [&] { co[i]->set_->setProxParameter(mu); }))
          mco[i].set_mu(mu);
      }
      break;
    case 14: // replace a product by a copy of one of its parts
      if (lives(st[i]) && !mst[i].sub.empty()) {
        std::size_t q = c.choose(S_OPS, (uint32_t)mst[i].sub.size());
        Ref r = mst[i].sub[q];
        const PS &part = static_cast<const SetProd &>(**st[i]).components()[q];
        if (attempt_op(nm, [&] { *st[i] = part; }))
          mst[i] = r;
      }
      break;
    case 15:
      if (lives(st[i]) && lives(st[j]) && i != j)
        if (attempt_op(nm, [&] { *st[i] = std::move(*st[j]); })) {
          mst[i] = mst[j];
          st[j].reset();
        }
      break;
    case 16:
      if (lives(st[j])) {
        std::unique_ptr<ConstraintObject> p;
        std::shared_ptr<LinearFunctionTpl<double>> fn;
        fn = std::make_shared<LinearFunctionTpl<double>>(
            MatrixXs::Identity(2, 2), VectorXs::Zero(2));
        if (attempt_op(nm,
                       [&] { p.reset(new ConstraintObject(fn, *st[j])); })) {
          co[i] = std::move(p);
          mco[i] = mst[j];
        }
      }
      break;
    case 17:
      if (co[j]) {
        std::unique_ptr<ConstraintObject> p;
        if (attempt_op(nm, [&] { p.reset(new ConstraintObject(*co[j])); })) {
          mco[i] = Ref(mco[j]);
          co[i] = std::move(p);
        }
      }
      break;
    }
    check(nm);
  }
  c.nontrivial = failed > 0 && done > 5;
  if (failed)
    probe("modelling operation ran out of memory", failed);
}
} // namespace model

static void run(Ctx &c) {
  using namespace handle;
  uint32_t mode = c.choose(S_CFG, 8);
  c.sh(mode);
  switch (mode) {
  case 0:
    return go<std::allocator<Base>>(c);
  case 1:
    return go<SimAlloc<Base, Traits<false, false, false, true>>>(c);
  case 2:
    return go<SimAlloc<Base, Traits<true, true, true, true>>>(c);
  case 3:
    return go<SimAlloc<Base, Traits<true, false, false, false>>>(c);
  case 4:
    return go<SimAlloc<Base, Traits<false, true, false, true>>>(c);
  case 5:
    return go<SimAlloc<Base, Traits<false, false, true, false>>>(c);
  default:
    return model::run(c);
  }
}
Registered sim::the_scenario = {
    "C10", run,
    "a case is a history of up to 60 (90) operations on a pool of polymorphic "
    "handles with one of six allocators, or of spaces, sets and constraints "
    "built from them, under failing allocations and copies; non-trivial when "
    "an operation failed part way and operands were nested or had unequal "
    "allocators; distinct by sequence of operations"};
