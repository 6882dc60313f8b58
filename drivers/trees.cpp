// C24: shrinkables as trees. Random expressions over the functions of namespace
// rc::shrinkable, read completely, and the operations on trees.
#include <rapidcheck.h>
#include <algorithm>
#include <memory>
#include "vt.h"

using namespace rc;

static vt::Trace *T;

// i n | m f v | t v v
struct Val {
  char k = 'i';
  int n = 0;
  std::vector<Val> c;
  bool operator==(const Val &o) const { return k == o.k && n == o.n && c == o.c; }
};
static Val num(int n) {
  Val v;
  v.n = n;
  return v;
}
static Val with(char k, int n, std::vector<Val> c) {
  Val v;
  v.k = k;
  v.n = n;
  v.c = std::move(c);
  return v;
}
static std::string str(const Val &v) {
  std::string o = "[\"" + std::string(1, v.k) + "\"";
  if (v.k != 't') o += "," + std::to_string(v.n);
  for (auto &x : v.c) o += "," + str(x);
  return o + "]";
}
static int sum(const Val &v) {
  int s = v.k == 't' ? 0 : v.n;
  for (auto &x : v.c) s += sum(x);
  return s;
}
static bool pred(int p, const Val &v) {
  int n = sum(v);
  return p == 0 ? true : p == 1 ? n % 2 == 0 : p == 2 ? n % 3 != 1 : n > 0;
}
static std::vector<Val> more(const Val &v) {
  int n = sum(v);
  if (n == 0) return {};
  if (n == 1) return {num(0)};
  return {num(0), num(n - 2)};
}
static Seq<Val> moreSeq(const Val &v) { return seq::fromContainer(more(v)); }

struct Node {
  std::string k;
  std::vector<int> c; // 1-based
  int p = 0;
};
static std::vector<Node> NODES;
static int FORM; // which of the equivalent ways of writing an expression

using SV = Shrinkable<Val>;
static SV make(int i);

struct OwnImpl {
  int n;
  std::vector<SV> kids;
  OwnImpl(int a, std::vector<SV> b) : n(a), kids(std::move(b)) {}
  Val value() const { return num(n); }
  Seq<SV> shrinks() const { return seq::fromContainer(kids); }
};
static SV rec(int n) {
  return shrinkable::shrinkRecur(num(n), [](const Val &v) { return moreSeq(v); });
}
static std::vector<SV> all(Seq<SV> s) {
  std::vector<SV> r;
  while (auto x = s.next()) r.push_back(*x);
  return r;
}
static Seq<SV> replaced(int p, Seq<SV> s) {
  switch (p) {
  case 0: return seq::drop(1, std::move(s));
  case 1: return seq::take(2, std::move(s));
  case 2: return seq::concat(std::move(s), seq::just(rec(1)));
  case 3: return Seq<SV>();
  case 4:
    return seq::map(std::move(s), [](SV &&x) {
      return shrinkable::map(std::move(x), [](Val &&v) { return with('m', 1, {std::move(v)}); });
    });
  default: {
    auto v = all(std::move(s));
    std::reverse(v.begin(), v.end());
    return seq::fromContainer(std::move(v));
  }
  }
}
static SV make(int i) {
  const Node nd = NODES[i];
  const int p = nd.p;
  if (nd.k == "lit") {
    std::vector<SV> kids;
    for (int c : nd.c) kids.push_back(make(c));
    switch ((FORM + i) % 6) {
    case 0: return makeShrinkable<OwnImpl>(p, kids);
    case 1: return shrinkable::just(num(p), seq::fromContainer(kids));
    case 2: return shrinkable::lambda([=] { return num(p); }, [=] { return seq::fromContainer(kids); });
    case 3:
      return shrinkable::shrink([=] { return num(p); }, [=](const Val &v) {
        return sum(v) == p ? seq::fromContainer(kids) : Seq<SV>();
      });
    case 4:
      if (kids.empty()) return shrinkable::just(num(p));
      return shrinkable::just(num(p), seq::concat(seq::just(kids[0]), seq::drop(1, seq::fromContainer(kids))));
    default:
      if (kids.empty()) return shrinkable::lambda([=] { return num(p); });
      return shrinkable::lambda(fn::constant(num(p)), fn::constant(seq::fromContainer(kids)));
    }
  }
  if (nd.k == "rec") return rec(p);
  if (nd.k == "map") {
    auto s = make(nd.c[0]);
    if (FORM % 2) return shrinkable::map(s, [p](const Val &v) { return with('m', p, {v}); });
    return shrinkable::map(std::move(s), [p](Val &&v) { return with('m', p, {std::move(v)}); });
  }
  if (nd.k == "shrinks")
    return shrinkable::mapShrinks(make(nd.c[0]), [p](Seq<SV> &&s) { return replaced(p, std::move(s)); });
  if (nd.k == "filter") {
    auto s = shrinkable::filter(make(nd.c[0]), [p](const Val &v) { return pred(p, v); });
    return s ? *s : make(nd.c[1]);
  }
  if (nd.k == "bind") {
    std::vector<SV> parts;
    for (size_t j = 1; j < nd.c.size(); j++) parts.push_back(make(nd.c[j]));
    return shrinkable::mapcat(make(nd.c[0]), [parts](const Val &v) { return parts[sum(v) % parts.size()]; });
  }
  if (nd.k == "pair")
    return shrinkable::map(shrinkable::pair(make(nd.c[0]), make(nd.c[1])),
                           [](std::pair<Val, Val> &&x) { return with('t', 0, {x.first, x.second}); });
  if (nd.k == "post") return shrinkable::postShrink(make(nd.c[0]), [](const Val &v) { return moreSeq(v); });
  std::abort();
}

// the tree, depth first; false if it is too large
static int LIMIT = 300;
static bool flat(const SV &s, std::string &o, int &n, int depth) {
  if (++n > LIMIT || depth > 40) return false;
  Val v = s.value();
  auto ks = vt::reader(s.shrinks());
  std::vector<SV> kids;
  while (auto k = ks.next()) {
    kids.push_back(*k);
    if (int(kids.size()) > LIMIT) return false;
  }
  o += (o.size() > 1 ? ",[" : "[") + str(v) + "," + std::to_string(kids.size()) + "]";
  for (auto &k : kids)
    if (!flat(k, o, n, depth + 1)) return false;
  return true;
}
static bool flat(const SV &s, std::string &o, int &n) {
  o = "[";
  n = 0;
  bool ok = flat(s, o, n, 0);
  o += "]";
  return ok;
}
static vt::J list(const std::vector<Val> &vs) {
  std::string o = "[";
  for (auto &v : vs) o += (o.size() > 1 ? "," : "") + str(v);
  return vt::J(o + "]");
}

struct Maker {
  vt::Rng &g;
  explicit Maker(vt::Rng &r) : g(r) {}
  int add(Node n) {
    NODES.push_back(std::move(n));
    return int(NODES.size()) - 1;
  }
  int make(int depth) {
    Node n;
    if (depth == 0) {
      n.k = g.below(3) ? "lit" : "rec";
      n.p = g.below(5);
      return add(n);
    }
    static const std::vector<std::string> kinds = {"lit", "lit", "lit", "map", "shrinks", "shrinks", "filter", "filter", "bind", "bind", "pair", "post"};
    n.k = g.pick(kinds);
    int arity = 1;
    if (n.k == "lit") arity = g.in(0, 4), n.p = g.below(5);
    if (n.k == "map") n.p = g.in(0, 2);
    if (n.k == "shrinks") n.p = g.in(0, 5);
    if (n.k == "filter") n.p = g.in(1, 3), arity = 2;
    if (n.k == "bind") arity = g.in(2, 4);
    if (n.k == "pair") arity = 2;
    for (int i = 0; i < arity; i++) {
      // parts may be used more than once
      if (NODES.size() > 1 && g.below(5) == 0) n.c.push_back(g.in(1, int(NODES.size()) - 1));
      else n.c.push_back(make(g.below(4) ? depth - 1 : 0));
    }
    return add(n);
  }
};

// many shrinks, one of them (near the end) another one, under one of the functions
static int wide(Maker &m, vt::Rng &g) {
  const int n = g.pick(std::vector<int>{40, 70, 130, 260, 520, 1030, 2050}), at = std::max(0, n - 1 - g.below(g.below(3) ? 3 : n));
  Node a, b, w, o;
  a.k = b.k = w.k = "lit";
  a.p = g.below(3);
  b.p = a.p + g.in(1, 2);
  w.p = g.below(5);
  const int ai = m.add(a), bi = m.add(b);
  w.c.assign(n, ai);
  w.c[at] = bi;
  const int wi = m.add(w);
  o.k = g.pick(std::vector<std::string>{"", "", "map", "shrinks", "filter", "bind", "pair", "lit"});
  if (o.k == "") return wi;
  o.c.push_back(wi);
  if (o.k == "map") o.p = 1;
  if (o.k == "shrinks") o.p = g.pick(std::vector<int>{0, 2, 4, 5});
  if (o.k == "filter") o.p = g.in(1, 3), o.c.push_back(wi);
  if (o.k == "bind" || o.k == "pair") o.c.push_back(ai);
  return m.add(o);
}

static bool scenario(vt::Rng &g, bool large) {
  NODES.assign(1, Node());
  FORM = g.below(12);
  LIMIT = large ? 5000 : 300;
  Maker m(g);
  const int root = large ? wide(m, g) : m.make(g.in(1, 4));
  if (NODES.size() > 24) return false;
  std::string all1, other1;
  int n, n2;
  SV s = make(root);
  if (!flat(s, all1, n)) return false;
  int other;
  SV o = s;
  std::string how = "copy";
  switch (g.below(4)) {
  case 0: other = root; break;
  case 1: // the same, made again in another way
    FORM = g.below(12);
    o = make(root);
    other = root;
    break;
  case 2: // one number is another one
  {
    auto keep = NODES;
    const size_t base = NODES.size() - 1;
    for (size_t i = 1; i <= base; i++) {
      Node c = keep[i];
      for (auto &x : c.c) x += int(base);
      NODES.push_back(c);
    }
    size_t at = base + 1 + g.below(base);
    if (NODES[at].k == "lit" || NODES[at].k == "rec") NODES[at].p = (NODES[at].p + 1) % 5;
    else if (NODES[at].k == "shrinks") NODES[at].p = g.below(6);
    else if (NODES[at].k == "filter") NODES[at].p = g.in(1, 3);
    other = root + int(base);
    o = make(other);
    break;
  }
  default:
    if (NODES.size() < 3) return false;
    other = g.in(1, int(NODES.size()) - 1);
    o = make(other);
  }
  if (!flat(o, other1, n2)) return false;
  std::vector<vt::J> ns;
  for (size_t i = 1; i < NODES.size(); i++) ns.push_back(vt::js(vt::Obj()("k", NODES[i].k)("c", NODES[i].c)("p", NODES[i].p)));
  T->begin(NODES[root].k, vt::Obj()("nodes", ns)("root", root)("other", other));
  T->ev(vt::Obj("tree")("t", vt::J(all1)));
  T->ev(vt::Obj("eq")("eq", s == o)("ne", s != o)("rev", o == s));
  const int p = g.below(4);
  {
    std::vector<Val> asked;
    bool res = shrinkable::all(s, [&](const SV &x) {
      asked.push_back(x.value());
      return pred(p, asked.back());
    });
    T->ev(vt::Obj("all")("p", p)("res", res)("asked", list(asked)));
  }
  {
    auto i = vt::reader(shrinkable::immediateShrinks(s));
    std::vector<Val> vs;
    while (auto v = i.next()) vs.push_back(*v);
    T->ev(vt::Obj("immediate")("vs", list(vs)));
  }
  for (int k = 0; k < 3; k++) {
    const int q = g.below(4);
    std::vector<Val> asked;
    auto r = shrinkable::findLocalMin(s, [&](const Val &v) {
      asked.push_back(v);
      return pred(q, v);
    });
    T->ev(vt::Obj("min")("p", q)("v", vt::J(str(r.first)))("n", int(r.second))("asked", list(asked)));
    std::vector<size_t> path;
    std::vector<int> pathI;
    SV at = s;
    for (int d = g.below(6); d > 0; d--) {
      size_t len = seq::length(at.shrinks());
      if (len == 0 && g.below(3)) break;
      size_t i = len == 0 || g.below(8) == 0 ? len + g.below(2) : g.below(int(len));
      // positions that lead nowhere, though their low bits would
      if (g.below(12) == 0) i += size_t(1) << g.pick(std::vector<int>{16, 32, 33, 63});
      path.push_back(i);
      pathI.push_back(int(std::min<size_t>(i, 1000000)));
      auto nx = seq::at(at.shrinks(), i);
      if (!nx) {
        if (g.below(2)) path.push_back(0), pathI.push_back(0);
        break;
      }
      at = *nx;
    }
    auto w = shrinkable::walkPath(s, path);
    std::string f = "[]";
    int fn;
    if (w) flat(*w, f, fn);
    T->ev(vt::Obj("walk")("path", pathI)("found", bool(w))("t", vt::J(f)));
  }
  // nothing of this changed the tree; a moved tree is the same tree
  SV c = s;
  SV moved = std::move(s);
  s = g.below(2) ? c : moved;
  flat(s, all1, n);
  T->ev(vt::Obj("tree")("t", vt::J(all1)));
  T->end();
  return true;
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng g(a.seed * 31 + 5);
  const int total = a.thorough ? 10000 : 1500;
  int dropped = 0;
  while (t.count() < total)
    if (!scenario(g, t.count() % 50 == 49) && ++dropped > 30 * total) return 4;
  return 0;
}
