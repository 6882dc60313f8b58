// C09: generated collections and walks through their shrink trees.
#include <rapidcheck.h>
#include "vt.h"
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <unordered_map>
#include <unordered_set>

using namespace rc;
static vt::Trace *T;

static std::vector<int> children(int x) {
  std::vector<int> v;
  if (x <= 0) return v;
  v.push_back(0);
  if (x / 2 > 0) v.push_back(x / 2);
  if (x - 1 > x / 2) v.push_back(x - 1);
  return v;
}
static Shrinkable<int> elem(int x) {
  return shrinkable::lambda(
      [x] {
        if (x < 0) throw std::runtime_error("bad element");
        return x;
      },
      [x] {
        std::vector<Shrinkable<int>> out;
        for (int c : children(x)) out.push_back(elem(c));
        return seq::fromContainer(std::move(out));
      });
}
static Gen<int> source(const char *ev, int dom, bool bad) {
  return Gen<int>([=](const Random &random, int) {
    Random r(random);
    const uint64_t n = r.next();
    const int x = bad && (n >> 40) % 9 == 0 ? -1 : int(n % uint64_t(dom));
    T->ev(vt::Obj(ev)("x", x));
    return elem(x);
  });
}

typedef std::vector<std::pair<int, int>> Shown;
static std::pair<int, int> one(int x) { return {x, 0}; }
static std::pair<int, int> one(const std::pair<const int, int> &p) { return {p.first, p.second}; }
static std::pair<int, int> one(const std::pair<int, int> &p) { return p; }
static std::pair<int, int> one(char c) { return {static_cast<unsigned char>(c), 0}; }
static std::pair<int, int> one(wchar_t c) { return {int(c), 0}; }
template <typename C>
static Shown shown(const C &c, bool sorted) {
  Shown v;
  for (const auto &x : c) v.push_back(one(x));
  if (sorted) std::sort(v.begin(), v.end());
  return v;
}

struct Cfg {
  std::string kind;
  bool sorted, pairs;
  int count, size, m, n;
};
template <typename C>
static void walk(const std::string &name, const Cfg &c, const Gen<C> &gen, vt::Rng &rng) {
  T->begin(name, vt::Obj()("kind", c.kind)("order", c.sorted ? "sorted" : "list")("pairs", c.pairs)("count", c.count)(
                     "size", c.size)("m", c.m)("n", c.n));
  auto s = gen(Random(rng.next()), c.size);
  T->abandon();
  bool evaluated = true, isText = c.kind == "text";
  Shown v;
  std::string err;
  auto value = [&](const Shrinkable<C> &x) {
    T->abandon();
    bool ok = true;
    try {
      v = shown(x.value(), c.sorted);
    } catch (const GenerationFailure &) {
      ok = false;
      err = "failed";
    } catch (const std::runtime_error &) {
      ok = false;
      err = "bad";
    }
    T->resume();
    return ok;
  };
  (void)evaluated;
  for (int step = 0; step < 6; step++) {
    if (value(s)) T->ev(vt::Obj(step == 0 && isText ? "text" : "at")("v", v));
    else {
      T->ev(vt::Obj(err.c_str()));
      if (err == "failed") break;
    }
    T->abandon();
    std::vector<Shrinkable<C>> kids;
    auto q = vt::reader(s.shrinks());
    while (auto k = q.next()) {
      kids.push_back(std::move(*k));
      if (kids.size() > 600) break;
    }
    std::string list;
    for (auto &k : kids) {
      const bool ok = value(k);
      list += (list.empty() ? "" : ",") + (ok ? vt::js(v).s : vt::esc(err));
    }
    T->resume();
    T->ev(vt::Obj("shrinks")("list", vt::J("[" + list + "]")));
    if (kids.empty()) break;
    // prefer element shrinks (late candidates) so that walks are long
    const int i = rng.chance(70) ? rng.in(int(kids.size()) / 2, int(kids.size()) - 1) : rng.in(0, int(kids.size()) - 1);
    T->ev(vt::Obj("choose")("i", i + 1));
    s = kids[i];
  }
  T->end();
}

template <typename C>
static void sequences(const char *name, const char *kind, bool sorted, bool bad, vt::Rng &rng, int n) {
  for (int i = 0; i < n; i++) {
    Cfg c{kind, sorted, false, -1, rng.in(0, 7), 1, -1};
    const int dom = rng.pick(std::vector<int>{1, 2, 4, 9, 30});
    const bool b = bad && rng.chance(20);
    if (rng.chance(50)) {
      walk<C>(name, c, gen::container<C>(source("key", dom, b)), rng);
    } else {
      c.count = rng.in(0, 6);
      walk<C>(std::string(name) + " fixed", c, gen::container<C>(c.count, source("key", dom, b)), rng);
    }
  }
}
template <typename C>
static void maps(const char *name, const char *kind, vt::Rng &rng, int n) {
  for (int i = 0; i < n; i++) {
    Cfg c{kind, true, true, -1, rng.in(0, 6), 1, -1};
    const int dom = rng.pick(std::vector<int>{1, 2, 4, 9, 30}), dv = rng.pick(std::vector<int>{1, 3, 9});
    if (rng.chance(50)) {
      walk<C>(name, c, gen::container<C>(source("key", dom, false), source("val", dv, false)), rng);
    } else {
      c.count = rng.in(0, 5);
      walk<C>(std::string(name) + " fixed", c,
              gen::container<C>(c.count, source("key", dom, false), source("val", dv, false)), rng);
    }
  }
}
template <typename C>
static void uniques(const char *name, vt::Rng &rng, int n) {
  for (int i = 0; i < n; i++) {
    Cfg c{"unique", false, false, -1, rng.in(0, 7), 1, -1};
    const int dom = rng.pick(std::vector<int>{2, 6, 12, 40});
    const int form = rng.in(0, 3);
    if (form >= 2) { // unique by the element itself
      c.m = 1000003;
      if (form == 2) walk<C>(name, c, gen::unique<C>(source("key", dom, false)), rng);
      else {
        c.count = rng.in(0, 6);
        walk<C>(std::string(name) + " fixed", c, gen::unique<C>(c.count, source("key", dom, false)), rng);
      }
      continue;
    }
    c.m = rng.pick(std::vector<int>{2, 3, 5, 8});
    const int m = c.m;
    // a stateful key function, given as an lvalue and used twice
    std::function<int(int)> key = [m](int x) { return x % m; };
    const bool useLvalue = rng.chance(50);
    for (int twice = 0; twice < (useLvalue ? 2 : 1); twice++) {
      if (form == 1) c.count = rng.in(0, 4);
      Gen<C> g = form == 0 ? (useLvalue ? gen::uniqueBy<C>(source("key", dom, false), key)
                                        : gen::uniqueBy<C>(source("key", dom, false), [m](int x) { return x % m; }))
                           : (useLvalue ? gen::uniqueBy<C>(c.count, source("key", dom, false), key)
                                        : gen::uniqueBy<C>(c.count, source("key", dom, false), [m](int x) { return x % m; }));
      walk<C>(std::string(name) + " by", c, g, rng);
    }
  }
}

// Long collections 0, 1, .., n-1 whose elements have no shrinks: what is left of
// them is written as the list of its maximal runs of consecutive numbers.
template <typename C, typename F>
static std::string runs(const C &c, bool sorted, const F &num) {
  std::vector<int> v;
  for (const auto &x : c) v.push_back(num(x));
  if (sorted) std::sort(v.begin(), v.end());
  std::string out;
  for (std::size_t i = 0; i < v.size();) {
    std::size_t j = i;
    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
    out += (out.empty() ? "[" : ",[") + std::to_string(v[i]) + "," + std::to_string(v[j]) + "]";
    i = j + 1;
  }
  return "[" + out + "]";
}
template <typename C, typename F>
static void chunkList(Seq<C> q, bool sorted, const F &num) {
  std::string list;
  std::size_t size = std::string::npos;
  auto flush = [&] {
    if (size != std::string::npos) T->ev(vt::Obj("removed")("left", int(size))("list", vt::J("[" + list + "]")));
    list.clear();
  };
  while (auto c = q.next()) {
    const std::size_t n = std::distance(c->begin(), c->end());
    if (n != size) flush();
    size = n;
    list += (list.empty() ? "" : ",") + runs(*c, sorted, num);
  }
  flush();
}
static int asInt(int x) { return x; }
static Gen<int> counting() {
  // every element generated once has the next number
  auto n = std::make_shared<int>(0);
  return Gen<int>([n](const Random &, int) { return shrinkable::just((*n)++); });
}
template <typename C>
static void longOne(const char *name, bool sorted, int size, vt::Rng &rng) {
  auto s = gen::container<C>(counting())(Random(rng.next()), size);
  const auto v = s.value();
  const int n = std::distance(v.begin(), v.end());
  if (n > size) throw std::runtime_error("too long");
  T->begin(name, vt::Obj()("kind", "long")("n", n)("size", size));
  T->ev(vt::Obj("whole")("runs", vt::J(runs(v, sorted, asInt))));
  chunkList(shrinkable::immediateShrinks(s), sorted, asInt);
  T->end();
}
static void longs(vt::Rng &rng, bool thorough) {
  for (int n : {0, 1, 2, 3, 9, 33, 64, 100, 129, 200, 257, thorough ? 400 : 129}) {
    T->begin("removeChunks", vt::Obj()("kind", "long")("n", n)("size", n));
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    chunkList(shrink::removeChunks(v), false, asInt);
    T->end();
    if (n > 250) continue;
    T->begin("removeChunks text", vt::Obj()("kind", "long")("n", n)("size", n));
    std::string t;
    for (int i = 0; i < n; i++) t.push_back(char(i));
    chunkList(shrink::removeChunks(t), false, [](char c) { return int(static_cast<unsigned char>(c)); });
    T->end();
  }
  for (int i = 0; i < (thorough ? 4 : 1); i++) {
    longOne<std::vector<int>>("long vector", false, rng.in(150, 250), rng);
    longOne<std::list<int>>("long list", false, rng.in(150, 250), rng);
    longOne<std::set<int>>("long set", true, rng.in(150, 250), rng);
    longOne<std::unordered_multiset<int>>("long multiset", true, rng.in(150, 250), rng);
  }
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng rng(a.seed);
  const int n = a.thorough ? 400 : 45;
  sequences<std::vector<int>>("vector", "seq", false, true, rng, 2 * n);
  sequences<std::deque<int>>("deque", "seq", false, true, rng, n);
  sequences<std::list<int>>("list", "seq", false, true, rng, n);
  sequences<std::forward_list<int>>("forward_list", "seq", false, true, rng, n);
  sequences<std::set<int>>("set", "set", true, false, rng, 2 * n);
  sequences<std::unordered_set<int>>("unordered_set", "set", true, false, rng, n);
  sequences<std::multiset<int>>("multiset", "multi", true, false, rng, n);
  sequences<std::unordered_multiset<int>>("unordered_multiset", "multi", true, false, rng, n);
  maps<std::map<int, int>>("map", "map", rng, 2 * n);
  maps<std::unordered_map<int, int>>("unordered_map", "map", rng, n);
  maps<std::multimap<int, int>>("multimap", "multi", rng, n);
  maps<std::unordered_multimap<int, int>>("unordered_multimap", "multi", rng, n);
  uniques<std::vector<int>>("unique vector", rng, 2 * n);
  uniques<std::list<int>>("unique list", rng, n);
  for (int i = 0; i < n; i++) {
    Cfg c{"seq", false, false, 4, rng.in(0, 9), 1, 4};
    walk<std::array<int, 4>>("array", c, gen::container<std::array<int, 4>>(source("key", 9, false)), rng);
    c.count = rng.in(2, 5);
    walk<std::array<int, 4>>("array fixed", c, gen::container<std::array<int, 4>>(c.count, source("key", 9, false)), rng);
    Cfg x{"text", false, false, -1, rng.in(0, 8), 1, -1};
    walk<std::string>("string", x, gen::string<std::string>(), rng);
    walk<std::wstring>("wstring", x, gen::string<std::wstring>(), rng);
  }
  longs(rng, a.thorough);
  return 0;
}
