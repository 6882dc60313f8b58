// C10: random generator expressions over the real built-in generators, walked
// through their shrink trees; every value seen is recorded.
#include <rapidcheck.h>
#include <array>
#include <chrono>
#include <deque>
#include <list>
#include <set>
#include <unordered_set>
#include "vt.h"

using namespace rc;
static vt::Trace *T;

struct Val {
  char k = 'w'; // w number, v collection, t tuple, n / j optional, m mapped
  bool neg = false;
  uint64_t mag = 0;
  int f = 0;
  std::vector<Val> c;
  bool operator==(const Val &o) const { return k == o.k && neg == o.neg && mag == o.mag && f == o.f && c == o.c; }
  bool operator<(const Val &o) const {
    return std::tie(k, neg, mag, f, c) < std::tie(o.k, o.neg, o.mag, o.f, o.c);
  }
};
namespace std {
template <>
struct hash<Val> {
  size_t operator()(const Val &v) const {
    size_t h = size_t(v.mag * 31 + v.neg + v.k);
    for (auto &x : v.c) h = h * 131 + (*this)(x);
    return h;
  }
};
}
static Val mk(char k, std::vector<Val> c, int f = 0) {
  Val v;
  v.k = k;
  v.c = std::move(c);
  v.f = f;
  return v;
}
static Val num(bool neg, uint64_t mag) {
  Val v;
  v.neg = neg && mag;
  v.mag = mag;
  return v;
}
template <typename X>
static typename std::enable_if<std::is_integral<X>::value, Val>::type toVal(X x) {
  if (std::is_signed<X>::value && x < X(0)) return num(true, uint64_t(0) - uint64_t((long long)x));
  return num(false, uint64_t(x));
}
static Val toVal(double d) {
  uint64_t b;
  std::memcpy(&b, &d, 8);
  return num(b >> 63, b & ~(uint64_t(1) << 63));
}
static Val toVal(float d) { return toVal(double(d)); }
template <typename R, typename P>
static Val toVal(std::chrono::duration<R, P> d) {
  return toVal(d.count());
}
template <typename X>
static Val toVal(const std::basic_string<X> &s) {
  std::vector<Val> c;
  for (X x : s) c.push_back(toVal(x));
  return mk('v', c);
}
static vt::J numJ(const Val &v) { return vt::J(std::string("[") + (v.neg ? "true" : "false") + "," + vt::u64(v.mag).s + "]"); }
static vt::J toJ(const Val &v) {
  std::string o = "[\"" + std::string(1, v.k) + "\"";
  if (v.k == 'w') o += "," + numJ(v).s;
  if (v.k == 'm') o += "," + std::to_string(v.f);
  for (auto &x : v.c) o += "," + toJ(x).s;
  return vt::J(o + "]");
}
static uint64_t weight(const Val &v) {
  uint64_t w = v.k == 'w' ? v.mag & 0xffff : 0;
  for (auto &x : v.c) w += weight(x);
  return w;
}

struct Node {
  std::string k;
  std::vector<int> c;
  Val lo, hi;
  int n = -1;
  std::vector<Val> vs;
};
static vt::J toJ(const Node &n) {
  std::vector<vt::J> vs;
  for (auto &v : n.vs) vs.push_back(toJ(v));
  return vt::js(vt::Obj()("k", n.k)("c", n.c)("lo", numJ(n.lo))("hi", numJ(n.hi))("n", n.n)("vs", vs));
}

struct Maker {
  explicit Maker(vt::Rng &r) : g(r) {}
  vt::Rng &g;
  std::vector<Node> nodes{Node()};
  bool cheap = true; // no nested filters over collections
  int add(const Node &n) {
    nodes.push_back(n);
    return int(nodes.size()) - 1;
  }
  struct R {
    int node;
    Gen<Val> gen;
    bool number;   // yields numbers
    int small;     // > 0: numbers in a range of that many, non-negative
  };

  template <typename X>
  int intNode() {
    Node n;
    n.k = "int";
    n.lo = toVal(std::numeric_limits<X>::min());
    n.hi = toVal(std::numeric_limits<X>::max());
    return add(n);
  }
  template <typename X>
  static Gen<Val> vals(Gen<X> gen) {
    return gen::map(std::move(gen), [](const X &x) { return toVal(x); });
  }
  template <typename X>
  X edge() {
    const X lo = std::numeric_limits<X>::min(), hi = std::numeric_limits<X>::max();
    switch (g.in(0, 5)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return X(0);
    case 3: return X(lo + g.in(0, 3));
    case 4: return X(hi - g.in(0, 3));
    default: return X(g.next() >> g.in(0, 63));
    }
  }
  template <typename X>
  R numbers() {
    Node n;
    const int which = g.in(0, 7);
    if (which <= 2) {
      X a = edge<X>(), b = edge<X>();
      if (b < a && g.chance(90)) std::swap(a, b);
      n.k = "range";
      n.lo = toVal(a);
      n.hi = toVal(b);
      return R{add(n), vals(gen::inRange<X>(a, b)), true, 0};
    }
    const int base = intNode<X>();
    n.c = {base};
    switch (which) {
    case 3: return R{base, vals(gen::arbitrary<X>()), true, 0};
    case 4: n.k = "pos"; return R{add(n), vals(gen::positive<X>()), true, 0};
    case 5:
      if (std::is_signed<X>::value) {
        n.k = "neg";
        return R{add(n), vals(gen::negative<X>()), true, 0};
      } // fallthrough
    case 6: n.k = "nonneg"; return R{add(n), vals(gen::nonNegative<X>()), true, 0};
    default: n.k = "nonzero"; return R{add(n), vals(gen::nonZero<X>()), true, 0};
    }
  }
  template <typename X>
  R reals() {
    Node n;
    n.k = "real";
    const int base = add(n);
    Node m;
    m.c = {base};
    switch (g.in(0, 4)) {
    case 0: return R{base, vals(gen::arbitrary<X>()), true, 0};
    case 1: m.k = "pos"; return R{add(m), vals(gen::positive<X>()), true, 0};
    case 2: m.k = "neg"; return R{add(m), vals(gen::negative<X>()), true, 0};
    case 3: m.k = "nonneg"; return R{add(m), vals(gen::nonNegative<X>()), true, 0};
    default: m.k = "nonzero"; return R{add(m), vals(gen::nonZero<X>()), true, 0};
    }
  }
  template <typename X>
  R chars() {
    Node n;
    n.k = "char";
    n.c = {intNode<X>()};
    const int ch = add(n);
    if (g.chance(40)) return R{ch, vals(gen::character<X>()), true, 0};
    Node t;
    t.k = "text";
    t.c = {ch};
    const int text = add(t);
    typedef std::basic_string<X> Str;
    if (g.chance(50)) return R{text, vals(gen::string<Str>()), false, 0};
    Node e;
    e.k = "nonempty";
    e.c = {text};
    return R{add(e), vals(g.chance(50) ? gen::nonEmpty<Str>() : gen::nonEmpty(gen::string<Str>())), false, 0};
  }
  R small() {
    const int a = g.in(-4, 6), w = g.in(1, 9);
    Node n;
    n.k = "range";
    n.lo = toVal(a);
    n.hi = toVal(a + w);
    return R{add(n), vals(gen::inRange<int>(a, a + w)), true, a >= 0 ? w : 0};
  }
  R elems() {
    Node n;
    n.k = "elem";
    const int cnt = g.chance(10) ? 0 : g.in(1, 5);
    for (int i = 0; i < cnt; i++) n.vs.push_back(toVal(g.in(-3, 9)));
    std::vector<Val> vs = n.vs;
    std::deque<Val> dq(vs.begin(), vs.end());
    Gen<Val> gen = gen::elementOf(vs);
    switch (g.in(0, 6)) {
    case 0: gen = gen::elementOf(dq); break;
    case 1: gen = gen::sizedElementOf(vs); break;
    case 2: gen = gen::sizedElementOf(dq); break;
    case 3:
      if (cnt == 3) gen = gen::element(vs[0], vs[1], vs[2]);
      break;
    case 4:
      if (cnt == 3) gen = gen::sizedElement(vs[0], vs[1], vs[2]);
      break;
    case 5:
      if (cnt == 3) gen = gen::weightedElement<Val>({{2, vs[0]}, {1, vs[1]}, {3, vs[2]}});
      break;
    }
    if (cnt == 3 && g.chance(20)) {
      gen = gen::weightedElement<Val>({{2, vs[0]}, {0, vs[1]}, {3, vs[2]}});
      n.vs = {vs[0], vs[2]};
    }
    if (cnt == 1 && g.chance(30)) gen = gen::just(vs[0]);
    return R{add(n), gen, true, 0};
  }
  R leaf() {
    switch (g.in(0, 19)) {
    case 0: return numbers<signed char>();
    case 1: return numbers<unsigned char>();
    case 2: return numbers<short>();
    case 3: return numbers<unsigned short>();
    case 4: return numbers<int>();
    case 5: return numbers<unsigned>();
    case 6: return numbers<int64_t>();
    case 7: return numbers<uint64_t>();
    case 8: return numbers<char>();
    case 9: return reals<double>();
    case 10: return reals<float>();
    case 11: return chars<char>();
    case 12: return chars<wchar_t>();
    case 13: return chars<char>();
    case 14: return elems();
    case 15: return elems();
    case 16: {
      const int b = intNode<int64_t>();
      return R{b, vals(gen::arbitrary<std::chrono::duration<int64_t, std::milli>>()), true, 0};
    }
    case 17: {
      Node n;
      n.k = "int";
      n.lo = toVal(0);
      n.hi = toVal(1);
      return R{add(n), vals(gen::arbitrary<bool>()), true, 0};
    }
    default: return small();
    }
  }
  template <typename C>
  static Gen<Val> listed(Gen<C> gen) {
    return gen::map(std::move(gen), [](C &&c) {
      std::vector<Val> v;
      for (auto &x : c) v.push_back(x);
      return mk('v', v);
    });
  }
  template <typename C>
  Gen<Val> cont(int count, const Gen<Val> &g2) {
    return listed(count < 0 ? gen::container<C>(g2) : gen::container<C>(size_t(count), g2));
  }
  R make(int depth) {
    if (depth == 0 || g.chance(10)) return leaf();
    Node n;
    switch (g.in(0, 21)) {
    case 0: { // filters
      R r = make(depth - 1);
      n.k = "even";
      n.c = {r.node};
      return R{add(n), gen::suchThat(r.gen, [](const Val &v) { return weight(v) % 2 == 0; }), r.number, 0};
    }
    case 1: {
      R r = make(depth - 1);
      n.k = "distinct";
      n.c = {r.node};
      n.vs = {r.number ? toVal(g.in(-1, 3)) : mk('v', {})};
      return R{add(n), gen::distinctFrom(r.gen, n.vs[0]), r.number, 0};
    }
    case 2:
    case 3: { // sequences of any container
      R r = make(depth - 1);
      n.k = "list";
      n.c = {r.node};
      n.n = g.chance(40) ? g.in(0, 4) : -1;
      Gen<Val> o = cont<std::vector<Val>>(n.n, r.gen);
      switch (g.in(0, 4)) {
      case 0: o = cont<std::list<Val>>(n.n, r.gen); break;
      case 1: o = cont<std::deque<Val>>(n.n, r.gen); break;
      case 2: o = cont<std::multiset<Val>>(n.n, r.gen); break;
      case 3:
        n.n = 3;
        o = listed(gen::container<std::array<Val, 3>>(r.gen));
        break;
      }
      if (n.n < 0 && g.chance(25)) {
        Node e;
        e.k = "nonempty";
        const int base = add(n);
        e.c = {base};
        return R{add(e),
                 gen::map(gen::nonEmpty(gen::container<std::vector<Val>>(r.gen)),
                          [](std::vector<Val> &&v) { return mk('v', v); }),
                 false, 0};
      }
      return R{add(n), o, false, 0};
    }
    case 4:
    case 5: { // distinct elements
      R r = make(depth - 1);
      n.c = {r.node};
      n.n = g.chance(40) ? g.in(0, 3) : -1;
      n.k = "uniq";
      Gen<Val> o = cont<std::set<Val>>(n.n, r.gen);
      switch (g.in(0, 4)) {
      case 0: o = cont<std::unordered_set<Val>>(n.n, r.gen); break;
      case 1:
        o = listed(n.n < 0 ? gen::unique<std::vector<Val>>(r.gen) : gen::unique<std::vector<Val>>(size_t(n.n), r.gen));
        break;
      case 2:
      case 3: {
        n.k = "uniqby";
        auto key = [](const Val &v) { return v.k == 'w' ? int((v.mag & 0xffff) % 5) : 0; };
        o = listed(n.n < 0 ? gen::uniqueBy<std::vector<Val>>(r.gen, key)
                           : gen::uniqueBy<std::list<Val>>(size_t(n.n), r.gen, key) | toVector());
        break;
      }
      }
      return R{add(n), o, false, 0};
    }
    case 6: {
      R a = leaf(), b = make(depth - 1);
      n.k = "map";
      n.c = {a.node, b.node};
      n.n = g.chance(30) ? g.in(0, 3) : -1;
      typedef std::map<Val, Val> M;
      auto mg = n.n < 0 ? gen::container<M>(a.gen, b.gen) : gen::container<M>(size_t(n.n), a.gen, b.gen);
      return R{add(n), gen::map(std::move(mg),
                                [](M &&m) {
                                  std::vector<Val> v;
                                  for (auto &p : m) v.push_back(mk('t', {p.first, p.second}));
                                  return mk('v', v);
                                }),
               false, 0};
    }
    case 7:
    case 8: {
      R a = make(depth - 1), b = make(depth - 1);
      n.k = "tuple";
      n.c = {a.node, b.node};
      Gen<Val> o = gen::map(gen::tuple(a.gen, b.gen),
                            [](std::tuple<Val, Val> &&t) { return mk('t', {std::get<0>(t), std::get<1>(t)}); });
      if (g.chance(50))
        o = gen::map(gen::pair(a.gen, b.gen), [](std::pair<Val, Val> &&t) { return mk('t', {t.first, t.second}); });
      return R{add(n), o, false, 0};
    }
    case 9:
    case 10: {
      R a = make(depth - 1);
      n.k = "maybe";
      n.c = {a.node};
      return R{add(n), gen::map(gen::maybe(a.gen), [](Maybe<Val> &&m) { return m ? mk('j', {*m}) : mk('n', {}); }), false,
               0};
    }
    case 11: {
      R a = make(depth - 1);
      n.k = "fmap";
      n.c = {a.node};
      n.n = g.in(0, 5);
      int f = n.n;
      return R{add(n), gen::map(a.gen, [f](Val &&v) { return mk('m', {std::move(v)}, f); }), false, 0};
    }
    case 12:
    case 13:
    case 14: { // dependent
      R a = small();
      n.k = "dep";
      n.c = {a.node};
      n.n = g.in(1, 7);
      const int w = n.n;
      auto val = [](const Val &v) { return v.neg ? -int(v.mag) : int(v.mag); };
      auto second = [w, val](const Val &v) {
        const int x = val(v);
        return gen::map(gen::inRange(x, x + w), [v](int y) { return mk('t', {v, toVal(y)}); });
      };
      Gen<Val> ag = a.gen;
      Gen<Val> o = gen::mapcat(ag, [second](Val &&v) { return second(v); });
      switch (g.in(0, 2)) {
      case 0: o = gen::join(gen::map(ag, [second](Val &&v) -> Gen<Val> { return second(v); })); break;
      case 1: o = gen::exec([ag, second]() -> Val {
        const Val v = *ag;
        return *second(v);
      }); break;
      }
      return R{add(n), o, false, 0};
    }
    case 15:
    case 16: {
      R a = make(depth - 1), b = make(depth - 1);
      n.k = "choice";
      n.c = {a.node, b.node};
      Gen<Val> o = gen::oneOf(a.gen, b.gen);
      switch (g.in(0, 3)) {
      case 0: o = gen::sizedOneOf(a.gen, b.gen); break;
      case 1: o = gen::weightedOneOf<Val>({{1, a.gen}, {3, b.gen}}); break;
      case 2:
        o = gen::weightedOneOf<Val>({{0, a.gen}, {3, b.gen}});
        n.c = {b.node};
        break;
      }
      return R{add(n), o, a.number && b.number, 0};
    }
    default: {
      R a = make(depth - 1);
      n.k = "same";
      n.c = {a.node};
      Gen<Val> o = a.gen;
      switch (g.in(0, 5)) {
      case 0: o = gen::resize(g.in(0, 150), a.gen); break;
      case 1: o = gen::scale(g.in(0, 300) / 100.0, a.gen); break;
      case 2: o = gen::noShrink(a.gen); break;
      case 3: o = gen::shrink(a.gen, [](Val &&) { return Seq<Val>(); }); break;
      case 4: {
        Gen<Val> ag = a.gen;
        o = gen::withSize([ag](int z) { return gen::resize(z / 2 + 1, ag); });
        break;
      }
      case 5: {
        Gen<Val> ag = a.gen;
        o = gen::lazy([ag] { return ag; });
        break;
      }
      }
      return R{add(n), o, a.number, a.small};
    }
    }
  }
  struct ToVector {};
  static ToVector toVector() { return ToVector(); }
  friend Gen<std::vector<Val>> operator|(Gen<std::list<Val>> gen, ToVector) {
    return gen::map(std::move(gen), [](std::list<Val> &&l) { return std::vector<Val>(l.begin(), l.end()); });
  }
};

static bool valueOf(const Shrinkable<Val> &s, vt::J &j) {
  try {
    j = toJ(s.value());
    return true;
  } catch (const GenerationFailure &) {
    j = vt::J("[\"e\",\"GF\"]");
  } catch (...) {
    j = vt::J("[\"e\",\"other\"]");
  }
  return false;
}

static void walk(vt::Rng &g, Shrinkable<Val> cur, int steps) {
  const int style = g.in(0, 3);
  for (int step = 0;; step++) {
    vt::J v;
    const bool ok = valueOf(cur, v);
    if (ok) T->ev(vt::Obj("val")("v", v));
    else if (v.s == "[\"e\",\"GF\"]") T->ev(vt::Obj("fail"));
    else T->ev(vt::Obj("other"));
    const bool open = T->open();
    T->abandon();
    std::vector<Shrinkable<Val>> kids;
    std::vector<vt::J> kv;
    auto q = vt::reader(cur.shrinks());
    const size_t cap = style == 2 ? 60 : 12;
    while (kids.size() < cap) {
      auto k = q.next();
      if (!k) break;
      kids.push_back(std::move(*k));
      vt::J j;
      valueOf(kids.back(), j);
      kv.push_back(j);
    }
    if (open) T->resume();
    if (kv.size()) T->ev(vt::Obj("kids")("list", kv));
    if (kids.empty() || step == steps) break;
    const int i = style == 0 ? int(kids.size()) - 1 : style == 1 ? g.in(0, 1) % int(kids.size()) : g.in(0, int(kids.size()) - 1);
    cur = kids[i];
  }
}

// what a generator over a small domain could yield, and how likely the least
// likely of the values is (from the nominal size on)
static bool domain(const std::vector<Node> &ns, int i, int size, std::vector<Val> &dom, double &p) {
  const Node &n = ns[i];
  dom.clear();
  if (n.k == "range" || n.k == "int") {
    if (n.lo.mag > 300 || n.hi.mag > 300) return false;
    const int lo = n.lo.neg ? -int(n.lo.mag) : int(n.lo.mag), hi = n.hi.neg ? -int(n.hi.mag) : int(n.hi.mag);
    if (hi <= lo) return false;
    for (int x = lo - 2; x <= hi + 2; x++) dom.push_back(toVal(x));
    p = 1.0 / (hi - lo + 1);
    return true;
  }
  if (n.k == "elem") {
    for (int x = -4; x <= 10; x++) dom.push_back(toVal(x));
    p = 1.0 / 6;
    return !n.vs.empty();
  }
  if (n.k == "dep") {
    for (int x = -5; x <= 16; x++)
      for (int y = -6; y <= 22; y++) dom.push_back(mk('t', {toVal(x), toVal(y)}));
    p = 1.0 / 63;
    return true;
  }
  std::vector<std::vector<Val>> d(n.c.size());
  std::vector<double> q(n.c.size());
  for (size_t k = 0; k < n.c.size(); k++)
    if (!domain(ns, n.c[k], size, d[k], q[k])) return false;
  if (n.k == "nonzero" || n.k == "pos" || n.k == "neg" || n.k == "nonneg" || n.k == "distinct" || n.k == "even") {
    dom = d[0];
    p = q[0];
  } else if (n.k == "char") {
    dom = d[0];
    p = q[0] / 2;
  } else if (n.k == "maybe") {
    dom.push_back(mk('n', {}));
    for (auto &x : d[0]) dom.push_back(mk('j', {x}));
    p = std::min(q[0] / 2, 1.0 / (size + 1));
  } else if (n.k == "fmap") {
    for (auto &x : d[0]) dom.push_back(mk('m', {x}, n.n));
    p = q[0];
  } else if (n.k == "choice") {
    p = 1;
    for (size_t k = 0; k < d.size(); k++) dom.insert(dom.end(), d[k].begin(), d[k].end()), p = std::min(p, q[k] / 4);
  } else if (n.k == "tuple") {
    if (d[0].size() * d[1].size() > 1500) return false;
    for (auto &x : d[0])
      for (auto &y : d[1]) dom.push_back(mk('t', {x, y}));
    p = q[0] * q[1];
  } else return false;
  return true;
}

static size_t weightOf(const vt::J &j) { return j.s.size(); }

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng g(a.seed * 104729 + 5);
  const int total = a.thorough ? 16000 : 2200;
  while (t.count() < total) {
    Maker m(g);
    auto r = m.make(g.in(0, 3));
    if (m.nodes.size() > 14) continue;
    // the expression is node 1 for the specification: put it first
    std::vector<vt::J> ns;
    std::vector<int> pos(m.nodes.size());
    std::vector<int> order{r.node};
    for (size_t i = 0; i < order.size(); i++)
      for (int c : m.nodes[order[i]].c) order.push_back(c);
    std::vector<Node> out;
    int next = 2;
    for (size_t i = 0; i < order.size(); i++) {
      Node n = m.nodes[order[i]];
      for (int &c : n.c) c = next++;
      out.push_back(n);
    }
    for (auto &n : out) ns.push_back(toJ(n));
    const int size = g.chance(15) ? 0 : g.chance(70) ? g.in(0, 8) : g.in(10, 150);
    int sz = size;
    for (auto &n : out) // keep collections and texts small enough for TLC
      if ((n.k == "list" || n.k == "uniq" || n.k == "uniqby" || n.k == "map" || n.k == "text") && sz > 7) sz = g.in(0, 7);
    bool big = false;
    t.begin(out[0].k, vt::Obj()("nodes", ns)("script", false)("size", sz));
    // resize() inside may still make a collection long: judge by the first value
    auto s = r.gen(Random(g.next()), sz);
    vt::J j;
    valueOf(s, j);
    if (weightOf(j) > 6000) big = true;
    if (big) continue;
    walk(g, s, a.thorough ? 30 : 14);
    t.end();
  }
  // over a small domain, everything that satisfies the contract comes up
  for (int done = 0; done < (a.thorough ? 500 : 60);) {
    Maker m(g);
    auto r = m.make(g.in(0, 2));
    static const std::vector<int> sizes{100, 100, 101, 150, 400};
    const int size = g.pick(sizes);
    std::vector<Val> dom;
    double p;
    if (m.nodes.size() > 12 || !domain(m.nodes, r.node, size, dom, p) || p < 1 / 3000.0 || dom.size() > 1500) continue;
    if (g.chance(70) && (m.nodes[r.node].k == "elem" || m.nodes[r.node].k == "range")) continue;
    std::set<Val> seen, all(dom.begin(), dom.end());
    Random rnd(g.next());
    int failed = 0;
    for (int k = int(35 / p); k > 0 && failed < 50; k--) {
      try {
        seen.insert(r.gen(rnd.split(), size).value());
      } catch (const GenerationFailure &) { failed++; }
    }
    if (failed) continue; // hardly ever, or never, satisfiable
    std::vector<vt::J> ns, vals;
    // node 1 is the expression; parts come after it
    std::vector<int> order{r.node};
    for (size_t i = 0; i < order.size(); i++)
      for (int c : m.nodes[order[i]].c) order.push_back(c);
    int next = 2;
    for (int i : order) {
      Node n = m.nodes[i];
      for (int &c : n.c) c = next++;
      ns.push_back(toJ(n));
    }
    all.insert(seen.begin(), seen.end());
    for (auto &v : all) vals.push_back(vt::J("[" + toJ(v).s + (seen.count(v) ? ",true]" : ",false]")));
    t.begin("cover", vt::Obj()("nodes", ns)("script", false)("size", size));
    t.ev(vt::Obj("cover")("vals", vals));
    t.end();
    done++;
  }
  // filters over a scripted part: when do they give up, what do they yield
  for (int i = 0; i < (a.thorough ? 600 : 120); i++) {
    Node n, b;
    n.k = "even";
    n.c = {2};
    b.k = "int";
    b.lo = toVal(-1000);
    b.hi = toVal(1000);
    const int size = g.in(0, 200);
    const int good = g.chance(25) ? -1 : g.chance(40) ? g.in(96, 103) : g.in(0, 99);
    t.begin("script", vt::Obj()("nodes", std::vector<vt::J>{toJ(n), toJ(b)})("script", true)("size", size));
    auto tries = std::make_shared<int>(0);
    Gen<int> part([=](const Random &, int z) {
      const int k = (*tries)++;
      const int x = k == good ? 8 : 1 + 2 * (k % 5);
      T->ev(vt::Obj("try")("size", z)("x", vt::J(std::string("[false,") + vt::u64(uint64_t(x)).s + "]")));
      return shrinkable::shrinkRecur(x, [](int y) { return shrink::towards(y, 0); });
    });
    auto gen = gen::suchThat(part, [](int x) { return x % 2 == 0; });
    auto s = gen(Random(g.next()), size);
    walk(g, shrinkable::map(s, [](int x) { return toVal(x); }), 6);
    t.end();
  }
  return 0;
}
