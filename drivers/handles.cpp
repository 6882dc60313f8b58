// Random sequences of operations on owning handles (property C16), and shrink
// trees used after everything they came from is gone.
#include "vt.h"

#include <algorithm>
#include <memory>
#include <new>
#include <sstream>

#include <rapidcheck.h>
#include "probe.h"
#include "handlekit.h"
#include <functional>

static vt::Trace *T;

static void snapshot(vt::Obj &o) {
  std::map<int, int> n;
  int shells = 0;
  for (auto &x : Registry::it().alive) {
    if (x.second == 0) shells++;
    else n[x.second]++;
  }
  o("n", true)("live", std::vector<std::pair<int, int>>(n.begin(), n.end()))("shells", shells);
}

template <typename Machine>
static void sequence(const char *name, Machine &m, vt::Rng &g, int steps) {
  T->begin(name, vt::Obj());
  for (int i = 0; i < steps; i++) {
    Op op = m.random(g);
    m.run(op);
    vt::Obj o = opJ(op);
    snapshot(o);
    T->ev(o);
    if (Registry::it().bad) {
      T->ev(vt::Obj("other")("what", "object used, made or destroyed that is not alive"));
      Registry::it().bad = false;
    }
  }
  m.clear();
  T->ev(vt::Obj("gone")("n", int(Registry::it().alive.size())));
  if (Registry::it().bad) T->ev(vt::Obj("other")("what", "at the end"));
  Registry::it().bad = false;
  Registry::it().alive.clear();
  T->end();
}

// --- used late ---------------------------------------------------------------------
static std::string val(const rc::Shrinkable<std::string> &s) {
  try {
    return s.value();
  } catch (const rc::GenerationFailure &e) {
    return std::string("fails: ") + e.what();
  }
}
static void walk(const rc::Shrinkable<std::string> &s, int depth, int width, std::vector<std::string> &out) {
  out.push_back(val(s));
  if (depth == 0) return;
  auto q = s.shrinks();
  for (int i = 0; i < width; i++) {
    auto k = q.next();
    if (!k) break;
    walk(*k, depth - 1, width, out);
  }
}
static void late(const std::string &name, const std::function<rc::Gen<std::string>()> &make, std::uint64_t seed, int size, vt::Rng &g) {
  T->begin("late", vt::Obj()("gen", name)("size", size));
  std::vector<std::string> a, b;
  {
    auto gen = make();
    auto s = gen(rc::Random(seed), size);
    walk(s, 3, 4, a);
  }
  {
    std::unique_ptr<rc::Shrinkable<std::string>> s;
    {
      std::unique_ptr<rc::Gen<std::string>> gen(new rc::Gen<std::string>(make()));
      std::unique_ptr<rc::Random> r(new rc::Random(seed));
      s.reset(new rc::Shrinkable<std::string>((*gen)(*r, size)));
    }
    b.push_back(val(*s));
    // shrinks of a handle that is gone, taken from a copied sequence
    std::function<void(rc::Shrinkable<std::string> *, int)> go = [&](rc::Shrinkable<std::string> *h, int depth) {
      std::unique_ptr<rc::Shrinkable<std::string>> own(h);
      if (depth == 0) return;
      std::unique_ptr<rc::Seq<rc::Shrinkable<std::string>>> q(new rc::Seq<rc::Shrinkable<std::string>>(own->shrinks()));
      own.reset();
      for (int i = 0; i < 4; i++) {
        std::unique_ptr<rc::Seq<rc::Shrinkable<std::string>>> c(new rc::Seq<rc::Shrinkable<std::string>>(*q));
        auto k = q->next();
        auto k2 = c->next();
        c.reset();
        if (!k) break;
        q.reset(new rc::Seq<rc::Shrinkable<std::string>>(*q));
        b.push_back(val(*k2));
        k2.reset();
        auto *n = new rc::Shrinkable<std::string>(std::move(*k));
        k.reset();
        go(n, depth - 1);
      }
    };
    go(s.release(), 3);
  }
  T->ev(vt::Obj("late")("a", a)("b", b));
  T->end();
}

// Very many handles of one object.
template <typename H>
static void many(const char *name, const H &first, int (*use)(const H &), int n) {
  T->begin("many", vt::Obj()("kind", name)("n", n));
  int a = use(first), b = 0;
  const int before = int(Registry::it().alive.size());
  {
    std::vector<H> v;
    for (int i = 0; i < n; i++) v.push_back(first);
    b = use(v.back());
    v.resize(1, first);
    a = a == use(v[0]) ? a : -1;
    v.clear();
  }
  if (use(first) != a) a = -1;
  T->ev(vt::Obj("handoff")("rounds", n)("left", int(Registry::it().alive.size()) - before)("wrong", (a != b) + (a == -1))("bad", Registry::it().bad));
  Registry::it().bad = false;
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng g(a.seed);
  const int n = a.thorough ? 2500 : 350;
  for (int i = 0; i < n; i++) {
    const int steps = g.chance(5) ? 150 : g.in(4, 40);
    {
      Handles m(g.in(2, 4));
      sequence("gen, shr, seq", m, g, steps);
    }
    {
      Maybes m(g.in(1, 3));
      sequence("maybe", m, g, steps);
    }
    {
      Variants m(g.in(1, 3));
      sequence("var", m, g, steps);
    }
    if (i % 3 == 0) {
      Anys m(g.in(1, 3));
      sequence("any", m, g, steps);
    }
  }
  for (int k : {3, 300, 70000}) {
    many<rc::Gen<int>>("gen", GenImpl(7), [](const rc::Gen<int> &s) { return s(rc::Random(), 0).value(); }, k);
    many<rc::Shrinkable<int>>("shr", rc::makeShrinkable<ShrImpl>(7), [](const rc::Shrinkable<int> &s) { return s.value(); }, k);
  }
  for (int i = 0; i < (a.thorough ? 40 : 6); i++)
    for (auto &x : gens()) late(x.first, x.second, g.next(), g.pick(std::vector<int>{0, 3, 10, 40}), g);
  return 0;
}
