// C03: explicit shrink trees through the real shrink search.
#include <rapidcheck.h>
#include "detail/Testing.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "rapidcheck/shrinkable/Operations.h"
#include "vt.h"

using namespace rc;
using namespace rc::detail;

struct Node {
  int id;
  char out;
  bool lazyThrow = false; // asking for shrinks beyond the listed ones throws
  std::vector<Node> c;
};

static int number(Node &n, int id) {
  n.id = id++;
  for (auto &k : n.c) id = number(k, id);
  return id;
}
static std::string descOf(const Node &n) { return std::string(1, n.out) + std::to_string(n.id); }
static vt::Obj treeJ(const Node &n) {
  std::vector<vt::Obj> c;
  for (auto &k : n.c) c.push_back(treeJ(k));
  return vt::Obj()("id", n.id)("o", std::string(1, n.out))("desc", descOf(n))("c", c);
}

static vt::Trace *T;

static Seq<const Node *> kids(const Node &n, int style) {
  std::vector<const Node *> v;
  for (auto &k : n.c) v.push_back(&k);
  Seq<const Node *> s;
  switch ((style + n.id) % 4) {
  case 0: s = seq::fromContainer(v); break;
  case 1: {
    std::vector<const Node *> a(v.begin(), v.begin() + v.size() / 2), b(v.begin() + v.size() / 2, v.end());
    s = seq::concat(seq::fromContainer(a), Seq<const Node *>(), seq::fromContainer(b));
    break;
  }
  case 2:
    s = seq::map(seq::range<std::size_t>(0, v.size()), [=](std::size_t i) { return v[i]; });
    break;
  default:
    s = seq::mapcat(seq::fromContainer(v), [](const Node *p) { return seq::just(p); });
  }
  if (n.lazyThrow)
    s = seq::concat(s, seq::map(seq::just(0), [](int) -> const Node * { throw std::runtime_error("no more"); }));
  return s;
}

static Shrinkable<CaseDescription> toCase(const Node &n, int style) {
  const Node *p = &n;
  return shrinkable::lambda(
      [=] {
        T->ev(vt::Obj("run")("id", p->id));
        CaseDescription d;
        d.result.type = p->out == 'S' ? CaseResult::Type::Success
                                      : p->out == 'F' ? CaseResult::Type::Failure : CaseResult::Type::Discard;
        d.result.description = descOf(*p);
        d.example = [=] { return Example{{"node", descOf(*p)}}; };
        return d;
      },
      [=] { return seq::map(kids(*p, style), [=](const Node *k) { return toCase(*k, style); }); });
}

static Shrinkable<int> toInt(const Node &n, int style) {
  const Node *p = &n;
  return shrinkable::lambda(
      [=] {
        T->ev(vt::Obj("run")("id", p->id));
        return p->id;
      },
      [=] { return seq::map(kids(*p, style), [=](const Node *k) { return toInt(*k, style); }); });
}

static int idOf(const Example &e) { return e.empty() ? -2 : std::atoi(e[0].second.c_str() + 1); }

struct L : public TestListenerAdapter {
  void onShrinkTried(const CaseDescription &d, bool acc) override {
    T->ev(vt::Obj("tried")("id", idOf(d.example()))("acc", acc));
  }
};

static std::vector<std::size_t> runFull(const Node &tree, const std::string &name, bool noshrink, int style, int before) {
  T->begin(name, vt::Obj()("tree", treeJ(tree))("mode", noshrink ? "none" : "full"));
  int k = 0;
  Property prop = Gen<CaseDescription>([&](const Random &, int) -> Shrinkable<CaseDescription> {
    if (k++ < before) {
      CaseDescription d;
      d.result.type = k % 3 ? CaseResult::Type::Success : CaseResult::Type::Discard;
      return shrinkable::just(d);
    }
    return toCase(tree, style);
  });
  TestParams p;
  p.disableShrinking = noshrink;
  L l;
  std::vector<std::size_t> path;
  const auto r = testProperty(prop, TestMetadata(), p, l);
  FailureResult f;
  if (r.match(f)) {
    path = f.reproduce.shrinkPath;
    T->ev(vt::Obj("res")("path", path)("desc", f.description)("cex", f.counterExample));
  } else {
    T->ev(vt::Obj("res-other"));
  }
  T->end();
  return path;
}

static void runShrink(const Node &tree, const std::string &name, int style) {
  T->begin(name, vt::Obj()("tree", treeJ(tree))("mode", "shrink"));
  L l;
  const auto r = shrinkTestCase(toCase(tree, style), l);
  T->abandon();
  const int id = idOf(r.first.value().example());
  // abandon() only mutes the recording of the evaluation above
  T->resume();
  T->ev(vt::Obj("shr")("path", r.second)("id", id));
  T->end();
}

static void collect(const Node &n, std::vector<bool> &fails) {
  if ((int)fails.size() <= n.id) fails.resize(n.id + 1);
  fails[n.id] = n.out == 'F';
  for (auto &k : n.c) collect(k, fails);
}

static void runLocalMin(const Node &tree, const std::string &name, int style) {
  T->begin(name, vt::Obj()("tree", treeJ(tree))("mode", "full"));
  std::vector<bool> fails;
  collect(tree, fails);
  const auto r = shrinkable::findLocalMin(toInt(tree, style), [&](int id) {
    T->ev(vt::Obj("judge")("id", id)("pred", bool(fails[id])));
    return bool(fails[id]);
  });
  T->ev(vt::Obj("lmin")("id", r.first)("n", r.second));
  T->end();
}

static void runWalk(const Node &tree, const std::string &name, int style, vt::Rng &rng,
                    std::vector<std::vector<std::size_t>> paths) {
  T->begin(name, vt::Obj()("tree", treeJ(tree))("mode", "none"));
  T->ev(vt::Obj("run")("id", 0));
  for (int i = 0; i < 12; i++) {
    std::vector<std::size_t> p;
    const int len = rng.in(0, 5);
    const Node *n = &tree;
    for (int j = 0; j < len; j++) {
      std::size_t k = rng.chance(15) || !n || n->c.empty() ? rng.in(0, 4) : rng.in(0, n->c.size() - 1);
      p.push_back(k);
      n = n && k < n->c.size() ? &n->c[k] : nullptr;
    }
    paths.push_back(p);
  }
  for (const auto &p : paths) {
    const auto s = shrinkable::walkPath(toInt(tree, style), p);
    T->abandon();
    const int id = s ? s->value() : -1;
    T->resume();
    T->ev(vt::Obj("walk")("path", p)("id", id));
  }
  T->ev(vt::Obj("run")("id", 0)); // phase "final" of the mode without shrinking
  T->end();
}

static std::vector<Node> enumerate(int depth, const std::vector<int> &width) {
  std::vector<Node> out;
  std::vector<std::vector<Node>> kidLists{{}};
  if (depth > 0) {
    const auto sub = enumerate(depth - 1, std::vector<int>(width.begin() + 1, width.end()));
    std::vector<std::vector<Node>> last{{}};
    for (int w = 0; w < width[0]; w++) {
      std::vector<std::vector<Node>> next;
      for (auto &l : last)
        for (auto &s : sub) {
          auto n = l;
          n.push_back(s);
          next.push_back(n);
        }
      kidLists.insert(kidLists.end(), next.begin(), next.end());
      last = next;
    }
  }
  for (char o : {'F', 'S', 'D'})
    for (auto &k : kidLists) {
      Node n;
      n.out = o;
      n.c = k;
      out.push_back(n);
    }
  return out;
}

static Node randomTree(vt::Rng &rng, int depth, int maxKids, int pFail, int &budget) {
  Node n;
  n.out = rng.chance(pFail) ? 'F' : rng.chance(70) ? 'S' : 'D';
  n.lazyThrow = rng.chance(5);
  if (depth > 0) {
    const int k = rng.in(0, maxKids);
    for (int i = 0; i < k && budget > 0; i++) {
      budget--;
      n.c.push_back(randomTree(rng, depth - 1, maxKids, pFail, budget));
    }
  }
  return n;
}

void longShrinks(const vt::Args &a); // longshrinks.cpp

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng rng(a.seed);

  int n = 0;
  for (auto &tree0 : enumerate(2, {2, 2})) {
    if (tree0.out != 'F') continue;
    Node tree = tree0;
    number(tree, 0);
    n++;
    const int style = rng.in(0, 3);
    if (a.thorough || n % 3 == int(a.seed % 3)) runFull(tree, "enum-full", false, style, rng.in(0, 4));
    if (a.thorough || n % 3 == int((a.seed + 1) % 3)) runShrink(tree, "enum-shrink", style);
    if (a.thorough || n % 9 == int(a.seed % 9)) runLocalMin(tree, "enum-localmin", style);
    if (a.thorough || n % 20 == int(a.seed % 20)) runFull(tree, "enum-noshrink", true, style, 0);
  }
  for (int i = 0; i < (a.thorough ? 3000 : 500); i++) {
    int budget = rng.in(1, 80);
    Node tree = randomTree(rng, rng.in(1, 8), rng.in(1, 7), rng.in(5, 70), budget);
    tree.out = 'F';
    number(tree, 0);
    const int style = rng.in(0, 3);
    const auto path = runFull(tree, "random-full", false, style, rng.in(0, 5));
    runShrink(tree, "random-shrink", style);
    runLocalMin(tree, "random-localmin", style);
    if (rng.chance(20)) runFull(tree, "random-noshrink", true, style, rng.in(0, 5));
    if (rng.chance(50)) runWalk(tree, "walk", style, rng, {path});
  }
  // long chains and wide levels: descents at late positions, many accepts
  for (int i = 0; i < (a.thorough ? 60 : 12); i++) {
    Node root;
    root.out = 'F';
    Node *cur = &root;
    const int depth = rng.in(20, 60);
    for (int d = 0; d < depth; d++) {
      const int w = rng.in(1, 5);
      const int f = rng.in(0, w - 1);
      for (int k = 0; k < w; k++) {
        Node c;
        c.out = k == f ? 'F' : k < f ? rng.pick(std::vector<char>{'S', 'D'}) : rng.pick(std::vector<char>{'S', 'D', 'F'});
        cur->c.push_back(c);
      }
      cur = &cur->c[f];
    }
    number(root, 0);
    runFull(root, "chain", false, rng.in(0, 3), 0);
    runShrink(root, "chain", rng.in(0, 3));
    Node wide;
    wide.out = 'F';
    const int w = rng.in(50, 400);
    const int f = rng.in(0, w);
    for (int k = 0; k < w; k++) {
      Node c;
      c.out = k == f ? 'F' : rng.pick(std::vector<char>{'S', 'D'});
      wide.c.push_back(c);
    }
    number(wide, 0);
    runFull(wide, "wide", false, rng.in(0, 3), 0);
    runLocalMin(wide, "wide", rng.in(0, 3));
  }
  // far more shrinks than usual before the one that fails, and a very long descent
  for (int i = 0; i < (a.thorough ? 6 : 2); i++) {
    Node wide;
    wide.out = 'F';
    const int w = rng.in(1100, 2600);
    for (int k = 0; k < w; k++) {
      Node c;
      c.out = k == w - 2 ? 'F' : rng.pick(std::vector<char>{'S', 'S', 'D'});
      wide.c.push_back(c);
    }
    number(wide, 0);
    runFull(wide, "very wide", false, i, 0);
    Node root;
    root.out = 'F';
    Node *cur = &root;
    for (int d = rng.in(80, 115); d > 0; d--) {
      Node c;
      c.out = 'F';
      cur->c.push_back(c);
      cur = &cur->c[0];
    }
    number(root, 0);
    runFull(root, "very deep", false, i, 0);
    runLocalMin(root, "very deep", i);
  }
  longShrinks(a);
  return 0;
}
