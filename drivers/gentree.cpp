// C17: random expressions of generator combinators over logging leaf
// generators, evaluated and walked through their shrink trees.
#include <rapidcheck.h>
#include <memory>
#include "vt.h"

using namespace rc;

static vt::Trace *T;

struct Val {
  char k = 'i'; // i s n j m t
  int n = 0;
  std::vector<Val> c;
  bool operator==(const Val &o) const { return k == o.k && n == o.n && c == o.c; }
};
static Val mk(char k, int n, std::vector<Val> c = {}) {
  Val v;
  v.k = k;
  v.n = n;
  v.c = std::move(c);
  return v;
}
static vt::J toJ(const Val &v) {
  std::string o = "[\"" + std::string(1, v.k) + "\"";
  if (v.k == 'i' || v.k == 's' || v.k == 'm') o += "," + std::to_string(v.n);
  for (auto &x : v.c) o += "," + toJ(x).s;
  return vt::J(o + "]");
}
static vt::J errJ(const std::string &e) { return vt::J("[\"e\"," + vt::esc(e) + "]"); }
static int sum(const Val &v) {
  int s = (v.k == 'i' || v.k == 's' || v.k == 'm') ? v.n : v.k == 'j' ? 1 : 0;
  for (auto &x : v.c) s += sum(x);
  return s;
}

struct LeafError : std::runtime_error {
  LeafError() : std::runtime_error("leaf") {}
};
struct BoomError {};
struct TooMuch {};

struct Node {
  std::string k;
  std::vector<int> c; // 1-based
  int p = 0;
  std::vector<int> w;
};
static vt::J toJ(const Node &n) {
  return vt::js(vt::Obj()("k", n.k)("c", n.c)("p", n.p)("w", n.w));
}

struct Inst {
  int n, p, s, t, a, arg, size, r, pick;
};
static std::vector<Node> NODES; // index 0 unused
static std::vector<Inst> INST;
static std::vector<Random> RIDS;
static int CALLS;
static bool TOO;

static int rid(const Random &r) {
  for (size_t i = 0; i < RIDS.size(); i++)
    if (RIDS[i] == r) return int(i);
  RIDS.push_back(r);
  return int(RIDS.size()) - 1;
}
// returns the number of the instance
static int call(Inst c) {
  if (CALLS++ > 6000 || INST.size() > 400) {
    TOO = true;
    throw TooMuch();
  }
  for (size_t i = 0; i < INST.size(); i++) {
    const Inst &o = INST[i];
    if (o.p == c.p && o.s == c.s && o.t == c.t && o.a == c.a) {
      if (o.size == c.size && o.r == c.r && o.pick == c.pick && o.n == c.n) return int(i) + 1;
      T->ev(vt::Obj("call")("i", int(i) + 1)("n", c.n)("p", c.p)("s", c.s)("t", c.t)("a", c.a)("arg", c.arg)("size", c.size)(
          "r", c.r)("pick", c.pick)("again", true));
      return int(i) + 1;
    }
  }
  INST.push_back(c);
  T->ev(vt::Obj("call")("i", int(INST.size()))("n", c.n)("p", c.p)("s", c.s)("t", c.t)("a", c.a)("arg", c.arg)("size", c.size)(
      "r", c.r)("pick", c.pick));
  return int(INST.size());
}

static std::vector<int> children(int x) {
  std::vector<int> r;
  if (x <= 0) return r;
  r.push_back(0);
  if (x / 2 > 0) r.push_back(x / 2);
  if (x - 1 > x / 2) r.push_back(x - 1);
  return r;
}
class LeafShrinkable {
public:
  LeafShrinkable(int x, bool bad) : m_x(x), m_bad(bad) {}
  Val value() const {
    if (m_bad && m_x == 2) throw LeafError();
    return mk('i', m_x);
  }
  Seq<Shrinkable<Val>> shrinks() const {
    std::vector<Shrinkable<Val>> v;
    for (int y : children(m_x)) v.push_back(makeShrinkable<LeafShrinkable>(y, m_bad));
    return seq::fromContainer(std::move(v));
  }

private:
  int m_x;
  bool m_bad;
};

static Val fun(int f, Val v) {
  if (f == 3 && sum(v) % 3 == 1) throw BoomError();
  return mk('m', f, {std::move(v)});
}
static bool pred(int p, const Val &v) {
  int n = sum(v);
  return p == 0 ? true : p == 1 ? n % 2 == 0 : p == 2 ? n % 3 != 1 : false;
}
static Seq<Val> custom(int p, const Val &v) {
  int n = sum(v);
  if (n == 0) return Seq<Val>();
  if (p == 1 && n % 3 == 2) throw BoomError();
  if (n == 1) return seq::just(mk('s', 0));
  return seq::just(mk('s', 0), mk('s', n - 2));
}

// wrappers used as targets of construct, build, ...
struct Struct3 {
  Val a, b, c;
};
struct Built {
  Val a, b, c, d;
  int sets = 0;
  void setB(const Val &x) {
    b = x;
    sets++;
  }
  void setCD(Val x, const Val &y) {
    c = std::move(x);
    d = y;
    sets++;
  }
};
struct Wrapped {
  Val v;
  Wrapped() = default;
  Wrapped(Val x) : v(std::move(x)) {}
};

static Gen<Val> build(int node, int parent, int slot, int arg, int a, std::shared_ptr<int> tries, int okSize = -1);

static Gen<Val> combine(const Node &nd, int me, int node, int arg, int size, const Random &random) {
  auto part = [&](int s) { return build(nd.c[s - 1], me, s, arg, 0, nullptr); };
  auto tup = [](std::vector<Val> v) { return mk('t', 0, std::move(v)); };
  const size_t n = nd.c.size();
  if (nd.k == "just") return gen::just(mk('i', nd.p));
  if (nd.k == "map") {
    int f = nd.p;
    return gen::map(part(1), [f](Val &&v) { return fun(f, std::move(v)); });
  }
  if (nd.k == "cast")
    return gen::map(gen::cast<Wrapped>(part(1)), [](Wrapped &&w) { return w.v; });
  if (nd.k == "named") return part(1).as("a name");
  if (nd.k == "lazy") {
    auto g = part(1);
    return gen::lazy([g] { return g; });
  }
  if (nd.k == "withsize") {
    int c = nd.c[0];
    return gen::withSize([=](int z) { return build(c, me, 1, arg, 0, std::make_shared<int>(z == size ? 0 : 1)); });
  }
  if (nd.k == "resize") return gen::resize(nd.p, part(1));
  if (nd.k == "scale") return gen::scale(nd.p / 4.0, part(1));
  if (nd.k == "noshrink") return gen::noShrink(part(1));
  if (nd.k == "shrink") {
    int p = nd.p;
    return gen::shrink(part(1), [p](Val &&v) { return custom(p, v); });
  }
  if (nd.k == "maybe")
    return gen::map(gen::maybe(part(1)), [](Maybe<Val> &&m) { return m ? mk('j', 0, {*m}) : mk('n', 0); });
  if (nd.k == "filter") {
    int p = nd.p;
    return gen::suchThat(build(nd.c[0], me, 1, arg, 0, std::make_shared<int>(0)),
                         [p](const Val &v) { return pred(p, v); });
  }
  if (nd.k == "mapcat" || nd.k == "join") {
    int p = nd.p, c = nd.c[1];
    auto second = [=](const Val &v) -> Gen<Val> {
      int b = sum(v) % 4;
      if (b == p) throw BoomError();
      return build(c, me, 2, b, b, nullptr);
    };
    if (nd.k == "mapcat") return gen::mapcat(part(1), [second](Val &&v) { return second(v); });
    return gen::join(gen::map(part(1), [second](Val &&v) { return second(v); }));
  }
  if (nd.k == "oneof") {
    if (n == 1) return gen::oneOf(part(1));
    if (n == 2) return gen::oneOf(part(1), part(2));
    return gen::oneOf(part(1), part(2), part(3));
  }
  if (nd.k == "weighted") {
    if (n == 1) return gen::weightedOneOf<Val>({{size_t(nd.w[0]), part(1)}});
    if (n == 2) return gen::weightedOneOf<Val>({{size_t(nd.w[0]), part(1)}, {size_t(nd.w[1]), part(2)}});
    return gen::weightedOneOf<Val>({{size_t(nd.w[0]), part(1)}, {size_t(nd.w[1]), part(2)}, {size_t(nd.w[2]), part(3)}});
  }
  if (nd.k == "sized") {
    if (n == 1) return gen::sizedOneOf(part(1));
    if (n == 2) return gen::sizedOneOf(part(1), part(2));
    return gen::sizedOneOf(part(1), part(2), part(3));
  }
  if (nd.k == "tuple") {
    if (n == 1) return gen::map(gen::tuple(part(1)), [=](std::tuple<Val> &&t) { return tup({std::get<0>(t)}); });
    if (n == 2)
      return gen::map(gen::tuple(part(1), part(2)),
                      [=](std::tuple<Val, Val> &&t) { return tup({std::get<0>(t), std::get<1>(t)}); });
    return gen::map(gen::tuple(part(1), part(2), part(3)), [=](std::tuple<Val, Val, Val> &&t) {
      return tup({std::get<0>(t), std::get<1>(t), std::get<2>(t)});
    });
  }
  if (nd.k == "pair")
    return gen::map(gen::pair(part(1), part(2)),
                    [=](std::pair<Val, Val> &&t) { return tup({t.first, t.second}); });
  if (nd.k == "apply") {
    if (n == 1) return gen::apply([=](const Val &x) { return tup({x}); }, part(1));
    if (n == 2) return gen::apply([=](Val x, const Val &y) { return tup({x, y}); }, part(1), part(2));
    return gen::apply([=](Val &&x, const Val &y, Val z) { return tup({x, y, z}); }, part(1), part(2), part(3));
  }
  if (nd.k == "construct")
    return gen::map(gen::construct<Struct3>(part(1), part(2), part(3)),
                    [=](Struct3 &&s) { return tup({s.a, s.b, s.c}); });
  if (nd.k == "unique")
    return gen::map(gen::makeUnique<Struct3>(part(1), part(2), part(3)),
                    [=](std::unique_ptr<Struct3> &&s) { return tup({s->a, s->b, s->c}); });
  if (nd.k == "shared")
    return gen::map(gen::makeShared<Wrapped>(part(1)), [=](std::shared_ptr<Wrapped> &&s) { return tup({s->v}); });
  if (nd.k == "build") {
    if (n == 2)
      return gen::map(gen::build<Built>(gen::set(&Built::a, part(1)), gen::set(&Built::setB, part(2))),
                      [=](Built &&b) { return tup({b.a, b.b}); });
    // setter with two arguments; the object itself comes from the first part
    return gen::map(
        gen::build(gen::map(part(1), [](Val &&v) {
                     Built b;
                     b.a = v;
                     return b;
                   }),
                   gen::set(&Built::setB, part(2)),
                   gen::set(&Built::setCD,
                            gen::map(part(3), [](Val &&v) { return std::make_tuple(v, mk('i', 5)); }))),
        [=](Built &&b) { return b.sets == 2 && b.d == mk('i', 5) ? tup({b.a, b.b, b.c}) : mk('n', 0); });
  }
  std::fprintf(stderr, "kind %s\n", nd.k.c_str());
  std::abort();
}

static Gen<Val> build(int node, int parent, int slot, int arg, int a, std::shared_ptr<int> tries, int) {
  return [=](const Random &random, int size) -> Shrinkable<Val> {
    const Node nd = NODES[node];
    Inst c{node, parent, slot, tries ? ++*tries : 1, a, arg, size, rid(random), 0};
    if (nd.k == "elem" || nd.k == "selem") {
      std::vector<Val> es;
      for (int i = 0; i < nd.p; i++) es.push_back(mk('i', i));
      Gen<Val> g = nd.k == "elem" ? gen::elementOf(es) : gen::sizedElementOf(es);
      if (nd.k == "elem" && nd.p == 3) g = gen::element(es[0], es[1], es[2]);
      if (nd.k == "selem" && nd.p == 3) g = gen::sizedElement(es[0], es[1], es[2]);
      auto s = g(random, size);
      try {
        c.pick = s.value().n;
      } catch (const GenerationFailure &) {
        c.pick = nd.p == 0 ? 0 : -1;
      }
      call(c);
      return s;
    }
    const int me = call(c);
    if (nd.k == "leaf") {
      if (nd.p == 1) throw LeafError();
      return makeShrinkable<LeafShrinkable>((3 * node + 5 * arg + 2 * c.r) % 6, nd.p == 2);
    }
    return combine(nd, me, node, arg, size, random)(random, size);
  };
}

static vt::J valueOf(const Shrinkable<Val> &s) {
  try {
    return toJ(s.value());
  } catch (const LeafError &) {
    return errJ("leaf");
  } catch (const BoomError &) {
    return errJ("boom");
  } catch (const GenerationFailure &) {
    return errJ("GF");
  } catch (const TooMuch &) {
    throw;
  } catch (...) {
    return errJ("other");
  }
}

// ------------------------------------------------------- random expressions
struct Maker {
  explicit Maker(vt::Rng &r) : g(r) {}
  vt::Rng &g;
  bool errUsed = false, neverUsed = false;
  std::vector<Node> nodes{Node()};
  int leaf() {
    Node n;
    switch (g.in(0, 9)) {
    case 0: n.k = "just", n.p = g.in(0, 5); break;
    case 1: n.k = "elem", n.p = g.in(1, 4); break;
    case 2: n.k = "selem", n.p = g.in(1, 5); break;
    case 3:
      if (!errUsed && g.chance(60)) {
        errUsed = true;
        switch (g.in(0, 3)) {
        case 0: n.k = "leaf", n.p = 1; break;
        case 1: n.k = "elem", n.p = 0; break;
        case 2: n.k = "selem", n.p = 0; break;
        default: n.k = "leaf", n.p = 2; break;
        }
        break;
      } // fallthrough
    default: n.k = "leaf"; break;
    }
    nodes.push_back(n);
    return int(nodes.size()) - 1;
  }
  int make(int depth) {
    if (depth == 0 || g.chance(8)) return leaf();
    static const std::vector<std::string> kinds = {
        "map", "map", "cast", "named", "lazy", "withsize", "resize", "scale", "noshrink", "shrink", "maybe", "maybe",
        "filter", "filter", "mapcat", "mapcat", "mapcat", "join", "oneof", "weighted", "sized", "tuple", "tuple", "pair",
        "apply", "construct", "unique", "shared", "build"};
    Node n;
    n.k = g.pick(kinds);
    int arity = 1;
    if (n.k == "mapcat" || n.k == "join" || n.k == "pair") arity = 2;
    if (n.k == "oneof" || n.k == "weighted" || n.k == "sized" || n.k == "tuple" || n.k == "apply") arity = g.in(1, 3);
    if (n.k == "construct" || n.k == "unique") arity = 3;
    if (n.k == "build") arity = g.in(2, 3);
    if (n.k == "map") n.p = !errUsed && g.chance(15) ? (errUsed = true, 3) : g.in(0, 2);
    if (n.k == "mapcat" || n.k == "join") n.p = !errUsed && g.chance(15) ? (errUsed = true, g.in(0, 3)) : -1;
    if (n.k == "shrink") n.p = g.chance(30) ? 1 : 0;
    if (n.k == "resize") n.p = g.in(0, 120);
    if (n.k == "scale") n.p = g.in(0, 9);
    if (n.k == "filter") n.p = g.in(0, 2);
    if (n.k == "filter" && !neverUsed && !errUsed && g.chance(10)) n.p = 3, neverUsed = true, errUsed = true;
    if (n.k == "weighted") {
      for (int i = 0; i < arity; i++) n.w.push_back(g.in(0, 3));
      bool all0 = true;
      for (int x : n.w) all0 = all0 && x == 0;
      if (all0 && errUsed) n.w[0] = 1;
      if (all0) errUsed = true;
    }
    int me = int(nodes.size());
    nodes.push_back(n);
    for (int i = 0; i < arity; i++) {
      int c = make(depth - 1);
      nodes[me].c.push_back(c);
    }
    return me;
  }
};

// returns false if the scenario is too large to be recorded
static bool scenario(vt::Rng &g, const std::vector<Node> &nodes, int maxDown) {
  NODES = nodes;
  INST.clear();
  RIDS.clear();
  CALLS = 0;
  TOO = false;
  int size = g.chance(15) ? 0 : g.chance(70) ? g.in(0, 40) : g.in(40, 200);
  std::vector<vt::J> ns;
  for (size_t i = 1; i < nodes.size(); i++) ns.push_back(toJ(nodes[i]));
  T->begin(nodes[1].k, vt::Obj()("nodes", ns)("size", size));
  try {
    Random r(g.next());
    auto cur = build(1, 0, 1, 0, 0, nullptr)(r, size);
    for (int step = 0;; step++) {
      vt::J v = valueOf(cur);
      std::vector<Shrinkable<Val>> kids;
      std::vector<vt::J> kv;
      auto seq = vt::reader(cur.shrinks());
      bool more = false;
      while (auto k = seq.next()) {
        if (kids.size() == 40) {
          more = true;
          break;
        }
        kids.push_back(std::move(*k));
      }
      for (auto &k : kids) kv.push_back(valueOf(k));
      if (!(valueOf(cur).s == v.s)) v = errJ("unstable");
      T->ev(vt::Obj("node")("v", v)("kids", kv)("more", more));
      if (kids.empty() || step == maxDown) break;
      int i = g.chance(40) ? 0 : g.in(0, int(kids.size()) - 1);
      T->ev(vt::Obj("down")("i", i + 1));
      cur = kids[i];
    }
  } catch (const TooMuch &) {
  }
  if (TOO) { // may also have been swallowed on its way
    T->abandon();
    return false;
  }
  T->end();
  return true;
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng g(a.seed * 7919 + 17);
  const int total = a.thorough ? 12000 : 1600;
  int dropped = 0;
  while (t.count() < total) {
    Maker m(g);
    m.make(g.in(1, 4));
    if (m.nodes.size() > 14) continue;
    if (!scenario(g, m.nodes, 12) && ++dropped > 20 * total) {
      std::fprintf(stderr, "too many scenarios dropped\n");
      return 4;
    }
  }
  return 0;
}
