// Machines that perform the operations of Handles.tla on real handles.
#pragma once
#include "probe.h"
#include "vt.h"
#include <functional>
#include <rapidcheck.h>
#include "rapidcheck/detail/Any.h"
#include "rapidcheck/detail/Variant.h"

struct Op {
  std::string op, k;
  int i = 0, j = 0, p = 0, r = 0;
  bool ok = true;
};
inline vt::Obj opJ(const Op &o) {
  return vt::Obj("op")("op", o.op)("k", o.k)("i", o.i + 1)("j", o.j + 1)("p", o.p)("r", o.r)("ok", o.ok);
}
enum St { NONE, EMPTY, MOVED, HAS };

// Raw room for handles of one type: constructed and destroyed by hand.
template <typename H>
struct Room {
  struct Cell {
    std::unique_ptr<char[]> mem;
    H *h = nullptr;
    St st = NONE;
  };
  std::vector<Cell> c;
  explicit Room(int n) { c.resize(n); }
  template <typename... A>
  void make(int i, St st, A &&... a) {
    c[i].mem.reset(new char[sizeof(H) + 64]);
    void *p = c[i].mem.get();
    std::size_t room = sizeof(H) + 64;
    p = std::align(alignof(H), sizeof(H), p, room);
    std::memset(p, 0xa5, sizeof(H));
    c[i].h = new (p) H(std::forward<A>(a)...);
    c[i].st = st;
  }
  void destroy(int i) {
    H *h = c[i].h;
    c[i].h = nullptr;
    c[i].st = NONE;
    h->~H();
    c[i].mem.reset();
  }
  void clear() {
    for (std::size_t i = 0; i < c.size(); i++)
      if (c[i].st != NONE) destroy(int(i));
  }
  H &operator[](int i) { return *c[i].h; }
  St &st(int i) { return c[i].st; }
  int size() const { return int(c.size()); }
  void copy(int i, int j) { make(i, st(j), static_cast<const H &>(*c[j].h)); }
  void move(int i, int j) {
    const St s = st(j);
    make(i, s, std::move(*c[j].h));
    if (s != EMPTY) st(j) = MOVED;
  }
  void cassign(int i, int j) {
    *c[i].h = static_cast<const H &>(*c[j].h);
    st(i) = st(j);
  }
  void massign(int i, int j) {
    H &from = *c[j].h;
    *c[i].h = std::move(from);
    if (i != j) {
      st(i) = st(j);
      if (st(j) != EMPTY) st(j) = MOVED;
    }
  }
};

// --- generators, shrinkables and sequences -------------------------------------------
struct ShrImpl;
struct SeqImpl {
  Probe<2> p;
  int pos = 0;
  SeqImpl(int of) : p(100000 + of) {}
  rc::Maybe<rc::Shrinkable<int>> operator()();
};
struct ShrImpl {
  Probe<1> p;
  explicit ShrImpl(int v) : p(v) {}
  int value() const { return p.v(); }
  rc::Seq<rc::Shrinkable<int>> shrinks() const { return rc::makeSeq<SeqImpl>(p.v()); }
};
inline rc::Maybe<rc::Shrinkable<int>> SeqImpl::operator()() {
  const int of = p.v() - 100000;
  if (of >= 1000 || pos >= 3) return rc::Nothing;
  pos++;
  return rc::makeShrinkable<ShrImpl>(3 * of + pos);
}
struct GenImpl {
  Probe<0> p;
  explicit GenImpl(int v) : p(v) {}
  rc::Shrinkable<int> operator()(const rc::Random &, int) const { return rc::makeShrinkable<ShrImpl>(p.v() + 10); }
};
struct Handles {
  using G = rc::Gen<int>;
  using S = rc::Shrinkable<int>;
  using Q = rc::Seq<rc::Shrinkable<int>>;
  Room<G> gen;
  Room<S> shr;
  Room<Q> seq;
  // handles of all threads, only read here: slots 5 and 6
  const Handles *common = nullptr;
  explicit Handles(int n) : gen(n), shr(n), seq(n) {}
  ~Handles() { clear(); }
  void clear() {
    gen.clear();
    seq.clear();
    shr.clear();
  }
  template <typename H>
  static bool basic(Room<H> &r, Op &o, vt::Rng &g, bool copies = true) {
    const int i = g.below(r.size()), j = g.below(r.size());
    o.i = i;
    o.j = j;
    if (r.st(i) == NONE) {
      if (r.st(j) == NONE) return false;
      o.op = copies && g.chance(65) ? "copy" : "move";
      return true;
    }
    if (r.st(j) == NONE) {
      o.op = "destroy";
      return true;
    }
    switch (g.in(0, 5)) {
    case 0: o.op = "destroy"; break;
    case 1:
    case 2: o.op = copies ? "cassign" : "massign"; break;
    case 3: o.op = "massign"; break;
    default:
      o.op = "use";
      if (r.st(i) == MOVED) o.op = "massign";
    }
    return true;
  }
  const G &rg(int i) const { return i < 4 ? *gen.c[i].h : *common->gen.c[i - 4].h; }
  const S &rs(int i) const { return i < 4 ? *shr.c[i].h : *common->shr.c[i - 4].h; }
  // an operation that reads a common handle
  bool shared(Op &o, vt::Rng &g) {
    const bool isGen = g.chance(50);
    o.k = isGen ? "gen" : "shr";
    const int c = 4 + g.below(2);
    const int i = g.below(gen.size());
    const St s = isGen ? gen.st(i) : shr.st(i);
    switch (g.in(0, 4)) {
    case 0:
      o.op = "use";
      o.i = c;
      return true;
    case 1:
      o.op = isGen ? "generate" : "shrinks";
      o.i = c;
      o.j = i;
      return isGen ? shr.st(i) == NONE : seq.st(i) == NONE;
    default:
      o.op = s == NONE ? "copy" : "cassign";
      o.i = i;
      o.j = c;
      return true;
    }
  }
  Op random(vt::Rng &g) {
    for (;;) {
      Op o;
      if (common && g.chance(35)) {
        if (shared(o, g)) return o;
        o = Op();
      }
      switch (g.in(0, 9)) {
      case 0:
        o.k = "gen";
        o.op = "new";
        o.i = g.below(gen.size());
        o.p = g.in(1, 9);
        if (gen.st(o.i) == NONE) return o;
        break;
      case 1:
        o.k = "shr";
        o.op = "new";
        o.i = g.below(shr.size());
        o.p = g.in(1, 400);
        if (shr.st(o.i) == NONE) return o;
        break;
      case 2:
        o.k = "gen";
        if (basic(gen, o, g)) return o;
        break;
      case 3:
      case 4:
        o.k = "shr";
        if (basic(shr, o, g)) return o;
        break;
      case 5:
        o.k = "seq";
        if (basic(seq, o, g) && o.op != "use") return o;
        break;
      case 6:
        o.k = "gen";
        o.op = "generate";
        o.i = g.below(gen.size());
        o.j = g.below(shr.size());
        if (gen.st(o.i) == HAS && shr.st(o.j) == NONE) return o;
        break;
      case 7:
        o.k = "shr";
        o.op = "shrinks";
        o.i = g.below(shr.size());
        o.j = g.below(seq.size());
        if (shr.st(o.i) == HAS && seq.st(o.j) == NONE) return o;
        break;
      case 8:
        o.k = "seq";
        o.op = "next";
        o.i = g.below(seq.size());
        o.j = g.below(shr.size());
        if (seq.st(o.i) != NONE && shr.st(o.j) == NONE) return o;
        break;
      default:
        o.k = "seq";
        o.op = "empty";
        o.i = g.below(seq.size());
        if (seq.st(o.i) == NONE && g.chance(20)) return o;
      }
    }
  }
  template <typename H, typename F>
  static void any(Room<H> &r, Op &o, const F &use) {
    if (o.op == "copy") r.copy(o.i, o.j);
    else if (o.op == "move") r.move(o.i, o.j);
    else if (o.op == "cassign") r.cassign(o.i, o.j);
    else if (o.op == "massign") r.massign(o.i, o.j);
    else if (o.op == "destroy") r.destroy(o.i);
    else if (o.op == "use") o.r = use(r[o.i]);
  }
  static int useGen(const G &x) {
    const int p = x(rc::Random(), 5).value() - 10;
    return x.name() == "generator of " + std::to_string(p) ? p : -1;
  }
  void run(Op &o) {
    try {
      if (o.op == "copy" && o.j > 3 && o.k == "gen") gen.make(o.i, HAS, rg(o.j));
      else if (o.op == "copy" && o.j > 3) shr.make(o.i, HAS, rs(o.j));
      else if (o.op == "cassign" && o.j > 3 && o.k == "gen") {
        gen[o.i] = rg(o.j);
        gen.st(o.i) = HAS;
      } else if (o.op == "cassign" && o.j > 3) {
        shr[o.i] = rs(o.j);
        shr.st(o.i) = HAS;
      } else if (o.op == "use" && o.i > 3) o.r = o.k == "gen" ? useGen(rg(o.i)) : rs(o.i).value();
      else if (o.op == "new" && o.k == "gen") gen.make(o.i, HAS, G(GenImpl(o.p)).as("generator of " + std::to_string(o.p)));
      else if (o.op == "new") shr.make(o.i, HAS, rc::makeShrinkable<ShrImpl>(o.p));
      else if (o.op == "empty") seq.make(o.i, EMPTY);
      else if (o.op == "generate") shr.make(o.j, HAS, rg(o.i)(rc::Random(), 5));
      else if (o.op == "shrinks") seq.make(o.j, HAS, rs(o.i).shrinks());
      else if (o.op == "next") {
        auto k = seq[o.i].next();
        if (k) {
          o.r = k->value();
          shr.make(o.j, HAS, std::move(*k));
        }
      } else if (o.k == "gen") any(gen, o, useGen);
      else if (o.k == "shr") any(shr, o, [](const S &x) { return x.value(); });
      else any(seq, o, [](const Q &) { return 0; });
    } catch (...) {
      o.ok = false;
    }
  }
};

#ifndef PROBE_LIGHT
// --- optional values ------------------------------------------------------------------
struct Maybes {
  using M = rc::Maybe<Probe<3>>;
  Room<M> m;
  explicit Maybes(int n) : m(n) {}
  void clear() { m.clear(); }
  Op random(vt::Rng &g) {
    for (;;) {
      Op o;
      o.k = "maybe";
      o.i = g.below(m.size());
      o.j = g.below(m.size());
      o.p = g.in(1, 50);
      const bool none = m.st(o.i) == NONE;
      switch (g.in(0, 6)) {
      case 0: o.op = "new"; if (none) return o; break;
      case 1: o.op = "empty"; if (none) return o; break;
      case 2: o.op = "set"; if (!none) return o; break;
      case 3: o.op = "reset"; if (!none) return o; break;
      case 4:
        o.op = "setfails";
        o.p = g.in(0, 1);
        if (!none && m.st(o.i) != MOVED) return o;
        break;
      case 5:
        o.op = "same";
        if (!none && m.st(o.j) != NONE) return o;
        break;
      default:
        if (Handles::basic(m, o, g)) return o;
      }
    }
  }
  void run(Op &o) {
    const bool odd = o.p % 2;
    try {
      if (o.op == "new") {
        const Probe<3> x(o.p);
        if (odd) m.make(o.i, HAS, x);
        else m.make(o.i, HAS, Probe<3>(o.p));
      } else if (o.op == "empty") {
        if (odd) m.make(o.i, EMPTY);
        else m.make(o.i, EMPTY, rc::Nothing);
      } else if (o.op == "set") {
        const Probe<3> x(o.p);
        if (o.p % 3 == 0) m[o.i] = x;
        else if (o.p % 3 == 1) m[o.i] = Probe<3>(o.p);
        else m[o.i].init(o.p);
        m.st(o.i) = HAS;
      } else if (o.op == "reset") {
        if (odd) m[o.i].reset();
        else m[o.i] = rc::Nothing;
        m.st(o.i) = EMPTY;
      } else if (o.op == "setfails") {
        const Probe<3> x(0, true);
        if (o.p == 1) {
          m.st(o.i) = EMPTY;
          m[o.i].init(x);
        } else {
          m[o.i] = x;
        }
      } else if (o.op == "same") {
        o.r = m[o.i] == m[o.j];
        if (o.r == (m[o.i] != m[o.j])) o.ok = false;
      } else {
        Handles::any(m, o, [](M &x) {
          const M &c = x;
          if (!x) return 0;
          return (*x).v() == x->v() && c->v() == (*c).v() ? (*x).v() : -1;
        });
      }
    } catch (const CopyFails &) {
      o.ok = false;
    }
  }
};

// --- variants ---------------------------------------------------------------------------
struct Big : Probe<5> {
  char room[200];
  std::string s = "some text that does not fit into the object itself";
  explicit Big(int v) : Probe<5>(v) {}
  Big(int v, bool f) : Probe<5>(v, f) {}
  Big(const Big &) = default;
  Big(Big &&) = default;
  Big &operator=(const Big &) = default;
  Big &operator=(Big &&o) noexcept {
    Probe<5>::operator=(std::move(o));
    if (this != &o) s = std::move(o.s);
    return *this;
  }
};
struct Variants {
  using V = rc::detail::Variant<Probe<4>, Big, Probe<6>>;
  Room<V> m;
  explicit Variants(int n) : m(n) {}
  void clear() { m.clear(); }
  Op random(vt::Rng &g) {
    for (;;) {
      Op o;
      o.k = "var";
      o.i = g.below(m.size());
      o.j = g.below(m.size());
      o.p = g.in(1, 50);
      const bool none = m.st(o.i) == NONE;
      switch (g.in(0, 4)) {
      case 0: o.op = "new"; if (none) return o; break;
      case 1: o.op = "set"; if (!none) return o; break;
      case 2:
        o.op = "setfails";
        o.p = 0;
        if (!none && m.st(o.i) != MOVED) return o;
        break;
      case 3:
        o.op = "same";
        if (!none && m.st(o.j) != NONE) return o;
        break;
      default:
        if (Handles::basic(m, o, g)) return o;
      }
    }
  }
  // the payload says which alternative it is
  static V value(int p) {
    if (p % 3 == 0) return V(Probe<4>(p));
    if (p % 3 == 1) return V(Big(p));
    const Probe<6> x(p);
    return V(x);
  }
  static int read(V &v) {
    const V &c = v;
    int p = -1;
    if (v.is<Probe<4>>() + v.is<Big>() + v.is<Probe<6>>() != 1) return -1;
    Probe<4> a(0);
    Big b(0);
    Probe<6> d(0);
    const bool ma = v.match(a), mb = v.match(b), md = v.match(d);
    if (v.is<Probe<4>>()) p = ma && !mb && !md && a.v() == c.get<Probe<4>>().v() && a.v() % 3 == 0 ? v.get<Probe<4>>().v() : -1;
    else if (v.is<Big>()) p = !ma && mb && !md && b.v() == c.get<Big>().v() && b.v() % 3 == 1 && b.s.size() == 50 ? v.get<Big>().v() : -1;
    else p = !ma && !mb && md && d.v() == c.get<Probe<6>>().v() && d.v() % 3 == 2 ? v.get<Probe<6>>().v() : -1;
    return p;
  }
  void run(Op &o) {
    try {
      if (o.op == "new") m.make(o.i, HAS, value(o.p));
      else if (o.op == "set") {
        switch (o.p % 6) {
        case 0: m[o.i] = Probe<4>(o.p); break;
        case 3: { const Probe<4> x(o.p); m[o.i] = x; break; }
        case 1: m[o.i] = Big(o.p); break;
        case 4: { const Big x(o.p); m[o.i] = x; break; }
        case 2: m[o.i] = Probe<6>(o.p); break;
        default: m[o.i] = value(o.p);
        }
        m.st(o.i) = HAS;
      } else if (o.op == "setfails") {
        // assignment from a variant whose value cannot be copied
        V bad(Big(1, true));
        m[o.i] = static_cast<const V &>(bad);
      } else if (o.op == "same") {
        o.r = m[o.i] == m[o.j];
        if (o.r == (m[o.i] != m[o.j])) o.ok = false;
      } else Handles::any(m, o, read);
    } catch (const CopyFails &) {
      o.ok = false;
    }
  }
};

// --- type-erased values -------------------------------------------------------------------
struct Anys {
  using A = rc::detail::Any;
  struct Room2 : Room<A> {
    explicit Room2(int n) : Room<A>(n) {}
    void copy(int, int) {}
    void cassign(int, int) {}
  } m;
  explicit Anys(int n) : m(n) {}
  void clear() { m.clear(); }
  Op random(vt::Rng &g) {
    for (;;) {
      Op o;
      o.k = "any";
      o.i = g.below(m.size());
      o.j = g.below(m.size());
      o.p = g.in(1, 50);
      const bool none = m.st(o.i) == NONE;
      switch (g.in(0, 3)) {
      case 0: o.op = "new"; if (none) return o; break;
      case 1: o.op = "empty"; if (none) return o; break;
      case 2: o.op = "reset"; if (!none) return o; break;
      default:
        if (Handles::basic(m, o, g, false)) return o;
      }
    }
  }
  void run(Op &o) {
    if (o.op == "new") {
      const Probe<7> x(o.p);
      if (o.p % 2) m.make(o.i, HAS, A::of(x));
      else m.make(o.i, HAS, A::of(Probe<7>(o.p)));
    } else if (o.op == "empty") m.make(o.i, EMPTY);
    else if (o.op == "reset") {
      m[o.i].reset();
      m.st(o.i) = EMPTY;
    } else if (o.op == "move") m.move(o.i, o.j);
    else if (o.op == "massign") m.massign(o.i, o.j);
    else if (o.op == "destroy") m.destroy(o.i);
    else if (o.op == "use") {
      A &x = m[o.i];
      const A &c = x;
      std::ostringstream os;
      x.showValue(os);
      if (!x) o.r = os.str().empty() ? 0 : -1;
      else o.r = os.str() == "probe " + std::to_string(x.get<Probe<7>>().v()) ? c.get<Probe<7>>().v() : -1;
    }
  }
};

#endif
// --- generators of the library -----------------------------------------------------------
// something on the heap for functions to keep: reading it when it is gone shows
struct Kept {
  std::vector<int> on = std::vector<int>(7, 1);
  int seven() const {
    int n = 0;
    for (int x : on) n += x;
    return n;
  }
};
inline std::vector<std::pair<std::string, std::function<rc::Gen<std::string>()>>> gens() {
  using namespace rc;
  std::vector<std::pair<std::string, std::function<Gen<std::string>()>>> v;
#define G(...) v.emplace_back(#__VA_ARGS__, [] { const Kept s; auto x = __VA_ARGS__; return gen::map(std::move(x), [](decltype(x(Random(), 0).value()) y) { return toString(y); }); })
  static const auto ints = [] { return gen::inRange(0, 100); };
  G(ints());
  G(gen::arbitrary<std::string>());
  G(gen::arbitrary<std::vector<std::string>>());
  G(gen::arbitrary<std::map<int, std::vector<bool>>>());
  G(gen::arbitrary<std::set<short>>());
  G(gen::arbitrary<std::tuple<int, char, double>>());
  G(gen::arbitrary<Maybe<std::pair<int, int>>>());
  G(gen::container<std::vector<int>>(5, ints()));
  G(gen::unique<std::vector<int>>(ints()));
  G(gen::uniqueBy<std::vector<int>>(ints(), [s](int x) { return x % s.seven(); }));
  G(gen::uniqueBy<std::vector<int>>(3, ints(), [s](int x) { return x % s.seven(); }));
  G(gen::container<std::map<int, std::string>>(4, ints(), gen::arbitrary<std::string>()));
  G(gen::map(ints(), [s](int x) { return std::to_string(x + s.seven()) + " mapped to something rather long"; }));
  G(gen::mapcat(ints(), [s](int x) { return gen::container<std::vector<int>>(x % s.seven(), gen::inRange(0, x + 1)); }));
  G(gen::join(gen::just(gen::inRange(0, 10))));
  G(gen::suchThat(ints(), [s](int x) { return x % s.seven() < 3; }));
  G(gen::distinctFrom(gen::arbitrary<std::string>(), std::string("x")));
  G(gen::nonEmpty<std::string>());
  G(gen::oneOf(ints(), gen::inRange(500, 600), gen::just(3)));
  G(gen::weightedOneOf<int>({{1, ints()}, {2, gen::inRange(500, 600)}}));
  G(gen::sizedOneOf(ints(), gen::inRange(500, 600)));
  G(gen::element<std::string>("a", "bc", "def"));
  G(gen::elementOf(std::vector<std::string>{"a", "bc", "def"}));
  G(gen::elementOf(std::string("some letters to choose from")));
  G(gen::sizedElement(std::vector<int>{1, 2, 3}));
  G(gen::weightedElement<std::string>({{1, "a"}, {3, "b"}}));
  G(gen::exec([s] {
    const int n = *gen::inRange(0, s.seven());
    std::vector<std::string> s;
    for (int i = 0; i < n; i++) s.push_back(*gen::string<std::string>());
    return s;
  }));
  G(gen::build<std::pair<int, std::string>>(gen::set(&std::pair<int, std::string>::first, ints()), gen::set(&std::pair<int, std::string>::second)));
  G(gen::construct<std::string>(gen::inRange<std::size_t>(0, 9), gen::character<char>()));
  G(gen::apply([s](int a, std::string b) { return std::make_pair(b, a + s.seven()); }, ints(), gen::arbitrary<std::string>()));
  G(gen::lazy([s] { return gen::pair(gen::inRange(0, s.seven()), gen::arbitrary<std::string>()); }));
  G(gen::withSize([s](int n) { return gen::inRange(0, n + s.seven()); }));
  G(gen::resize(50, gen::arbitrary<std::vector<int>>()));
  G(gen::scale(2.0, gen::arbitrary<std::vector<int>>()));
  G(gen::noShrink(gen::arbitrary<std::vector<int>>()));
  G(gen::shrink(ints(), [s](int x) { return seq::just(x / 2, x / s.seven()); }));
  G(gen::maybe(gen::arbitrary<std::string>()));
  G(gen::cast<long>(ints()));
  G(gen::tuple(ints(), gen::arbitrary<std::string>(), gen::tuple(ints(), ints())));
  G(gen::map(gen::makeUnique<std::string>(gen::inRange<std::size_t>(0, 9), gen::just(char(120))), [](const std::unique_ptr<std::string> &p) { return *p; }));
  G(gen::map(gen::makeShared<std::string>(gen::arbitrary<std::string>()), [](const std::shared_ptr<std::string> &p) { return *p; }));
  G(gen::withSize([](int n) { return gen::container<std::vector<std::vector<int>>>(gen::container<std::vector<int>>(gen::inRange(0, n + 1))); }));
  // a second argument that is only known once the first is there
  G(gen::exec([s](int a, const std::string &t) { return std::to_string(a + s.seven()) + t + *gen::element<std::string>("p", "q"); }));
  G(gen::mapcat(gen::suchThat(ints(), [s](int x) { return x > s.seven(); }), [s](int x) { return gen::map(gen::inRange(0, x), [s, x](int y) { return x + y + s.seven(); }); }));
  G(gen::nonEmpty(gen::unique<std::vector<int>>(gen::map(ints(), [s](int x) { return x + s.seven(); }))));
  G(gen::distinctFrom(gen::map(ints(), [s](int x) { return std::string(x % s.seven(), 'x'); }), std::string("xx")));
  G(gen::join(gen::map(ints(), [s](int x) { return gen::inRange(0, x + s.seven()); })));
#undef G
  return v;
}
