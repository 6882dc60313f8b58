// Choice by weight, equal choice and choice by size (property C20).
#include "vt.h"
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <rapidcheck.h>
#include <set>
#include "rapidcheck/detail/FrequencyMap.h"

using namespace rc;

static vt::Trace *T;
static std::vector<int> calls;
static int callSize;

static vt::J ints(const std::vector<int> &v) { return vt::js(v); }
static vt::J limbs(const std::vector<std::size_t> &v) {
  std::string s = "[";
  for (auto x : v) s += (s.size() > 1 ? "," : "") + vt::u64(x).s;
  return vt::J(s + "]");
}

static void own(const std::vector<int> &w) {
  std::vector<std::size_t> f(w.begin(), w.end());
  const detail::FrequencyMap m(f);
  std::vector<int> o;
  int total = 0;
  for (int x : w) total += x;
  for (int d = 0; d < total; d++) o.push_back(static_cast<int>(std::min<std::size_t>(m.lookup(d), 1000000)));
  T->ev(vt::Obj("own")("w", ints(w))("sum", m.sum())("own", ints(o)));
}
static void lookup(const std::vector<std::size_t> &w, std::uint64_t d) {
  const detail::FrequencyMap m(w);
  T->ev(vt::Obj("lookup")("w", limbs(w))("sum", vt::u64(m.sum()))("d", vt::u64(d))("i", m.lookup(d)));
}

enum Word { Own, Split, AfterSplit };
static std::uint64_t wordOf(Random r, Word w) {
  if (w == Split) return r.split().next();
  if (w == AfterSplit) r.split();
  return r.next();
}

// runs the generator and records what it chose; index tells which alternative a value is
template <typename V>
static void pick(const char *how, const std::vector<std::size_t> *w, std::size_t n, const Gen<V> &gen, const Random &random, int size, Word word,
                 bool gens, const std::function<int(const V &)> &index) {
  vt::Obj o("pick");
  o("how", how)("n", n)("w", w ? limbs(*w) : vt::J("[]"))("size", size)("word", vt::u64(wordOf(random, word)))("gens", gens);
  std::string res = "val";
  int i = -1;
  std::vector<int> shr, ran;
  int csize = -1;
  calls.clear();
  callSize = -1;
  try {
    const auto s = gen(random, size);
    i = index(s.value());
    ran = calls;
    csize = callSize;
    auto seq = vt::reader(s.shrinks());
    while (auto x = seq.next()) {
      if (shr.size() > 100) break;
      shr.push_back(index(x->value()));
    }
    if (index(s.value()) != i) res = "changed";
    // the generator is a function of the random state and the size
    if (index(gen(random, size).value()) != i) res = "changed";
  } catch (const GenerationFailure &) {
    res = "fail";
    ran = calls;
  } catch (...) { res = "other"; }
  if (res == "val" || res == "fail")
    T->ev(o("res", res)("i", i)("shr", ints(shr))("calls", ints(ran))("csize", csize));
  else T->ev(vt::Obj("other")("what", res));
}

static int same(const int &x) { return x >= 100 && x < 100 + 100000 ? x - 100 : -7; }

// a generator of the alternative i that tells that it ran
static Gen<int> telling(int i) {
  return [=](const Random &, int size) {
    calls.push_back(i);
    callSize = size;
    return shrinkable::just(100 + i);
  };
}

template <typename C>
static C filled(std::size_t n) {
  std::vector<typename C::value_type> v;
  for (std::size_t i = 0; i < n; i++) v.push_back(static_cast<typename C::value_type>(100 + i));
  return C(v.begin(), v.end());
}

template <typename C>
static void fromContainer(std::size_t n, const Random &r, int size) {
  using V = typename C::value_type;
  const std::function<int(const V &)> ix = [](const V &v) { return same(static_cast<int>(v) < 0 ? static_cast<int>(v) + 256 : static_cast<int>(v)); };
  auto c = filled<C>(n);
  if (n % 2) pick<V>("equal", nullptr, n, gen::elementOf(c), r, size, Own, false, ix);
  else pick<V>("equal", nullptr, n, gen::elementOf(std::move(c)), r, size, Own, false, ix);
  auto c2 = filled<C>(n);
  pick<V>("sized", nullptr, n, gen::sizedElementOf(c2), r, size, Own, false, ix);
}

static const std::function<int(const int &)> ixInt = &same;

static Gen<int> weighted(const std::vector<std::size_t> &w, bool of) {
  auto p = [&](int i) { return std::make_pair(w[i], 100 + i); };
  auto q = [&](int i) { return std::make_pair(w[i], telling(i)); };
  switch (w.size()) {
  case 0: return gen::weightedElement<int>({});
  case 1: return of ? gen::weightedOneOf<int>({q(0)}) : gen::weightedElement<int>({p(0)});
  case 2: return of ? gen::weightedOneOf<int>({q(0), q(1)}) : gen::weightedElement<int>({p(0), p(1)});
  case 3: return of ? gen::weightedOneOf<int>({q(0), q(1), q(2)}) : gen::weightedElement<int>({p(0), p(1), p(2)});
  case 4: return of ? gen::weightedOneOf<int>({q(0), q(1), q(2), q(3)}) : gen::weightedElement<int>({p(0), p(1), p(2), p(3)});
  case 5: return of ? gen::weightedOneOf<int>({q(0), q(1), q(2), q(3), q(4)}) : gen::weightedElement<int>({p(0), p(1), p(2), p(3), p(4)});
  default: break;
  }
  std::vector<int> e;
  for (std::size_t i = 0; i < w.size(); i++) e.push_back(100 + static_cast<int>(i));
  auto f = w;
  return gen::detail::WeightedElementGen<int>(std::move(f), std::move(e));
}
static void variadic(const Random &r, int size) {
  const auto a = telling(0), b = telling(1), c = telling(2), d = telling(3), e = telling(4);
  pick<int>("equal", nullptr, 1, gen::element(100), r, size, Own, false, ixInt);
  pick<int>("equal", nullptr, 2, gen::element(100, 101), r, size, Own, false, ixInt);
  pick<int>("equal", nullptr, 5, gen::element(100, 101, 102, 103, 104), r, size, Own, false, ixInt);
  pick<int>("sized", nullptr, 1, gen::sizedElement(100), r, size, Own, false, ixInt);
  pick<int>("sized", nullptr, 3, gen::sizedElement(100, 101, 102), r, size, Own, false, ixInt);
  pick<int>("sized", nullptr, 7, gen::sizedElement(100, 101, 102, 103, 104, 105, 106), r, size, Own, false, ixInt);
  pick<int>("equal", nullptr, 1, gen::oneOf(a), r, size, Split, true, ixInt);
  pick<int>("equal", nullptr, 2, gen::oneOf(a, b), r, size, Split, true, ixInt);
  pick<int>("equal", nullptr, 3, gen::oneOf(a, b, c), r, size, Split, true, ixInt);
  pick<int>("equal", nullptr, 5, gen::oneOf(a, b, c, d, e), r, size, Split, true, ixInt);
  pick<int>("sized", nullptr, 1, gen::sizedOneOf(a), r, size, AfterSplit, true, ixInt);
  pick<int>("sized", nullptr, 2, gen::sizedOneOf(a, b), r, size, AfterSplit, true, ixInt);
  pick<int>("sized", nullptr, 5, gen::sizedOneOf(a, b, c, d, e), r, size, AfterSplit, true, ixInt);
}

static int someSize(vt::Rng &g) {
  static const std::vector<int> sizes{0, 0, 1, 2, 5, 10, 25, 33, 49, 50, 51, 66, 75, 99, 100, 100, 101, 150, 1000, 100000, 0x7fffffff};
  return g.chance(60) ? g.pick(sizes) : g.in(0, 110);
}
static std::size_t someCount(vt::Rng &g) {
  return g.chance(10) ? 0 : g.chance(70) ? g.in(1, 12) : g.chance(60) ? g.in(1, 120) : g.in(1, 3000);
}
static Random someRandom(vt::Rng &g) {
  Random r(g.next());
  for (int i = g.in(0, 4); i > 0; i--) r = r.split(); // (a state that has been drawn from cannot be split)
  return r;
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng g(a.seed);

  // all short lists of small weights
  const int maxLen = a.thorough ? 6 : 4;
  for (int len = 1; len <= maxLen; len++) {
    int total = 1;
    for (int i = 0; i < len; i++) total *= 4;
    for (int from = 0; from < total; from += 64) {
      T->begin("weights", vt::Obj());
      for (int k = from; k < std::min(total, from + 64); k++) {
        std::vector<int> w;
        for (int i = 0, x = k; i < len; i++, x /= 4) w.push_back(x % 4);
        own(w);
      }
      T->end();
    }
  }
  T->begin("no weights", vt::Obj());
  own({});
  T->end();
  for (int i = 0; i < (a.thorough ? 300 : 30); i++) {
    T->begin("longer lists", vt::Obj());
    std::vector<int> w;
    for (int k = g.in(5, 40); k > 0; k--) w.push_back(g.chance(40) ? 0 : g.in(1, 9));
    own(w);
    T->end();
  }
  const int rounds = a.thorough ? 1500 : 150;
  for (int i = 0; i < rounds; i++) {
    // wide weights around the draw
    T->begin("wide", vt::Obj());
    for (int k = 0; k < 6; k++) {
      const Random r = someRandom(g);
      const bool of = g.chance(40);
      const std::uint64_t word = wordOf(r, of ? AfterSplit : Own);
      const std::size_t sum = g.chance(50) ? g.in(1, 50) : (g.next() >> g.in(0, 60)) | 1;
      const std::size_t d = word % sum;
      std::vector<std::size_t> w;
      switch (g.in(0, 6)) {
      case 0: w = {d, sum - d}; break;
      case 1: w = {d + 1, sum - d - 1}; break;
      case 2: w = {d, 1, sum - d - 1}; break;
      case 3: w = {0, d, 0, 1, sum - d - 1}; break;
      case 4: w = {d, 0, 0, sum - d, 0}; break;
      case 5: w = {sum}; break;
      default: {
        std::size_t left = sum;
        while (w.size() < 30 && left > 0) {
          const std::size_t x = g.chance(20) ? 0 : g.next() % left + 1;
          w.push_back(x);
          left -= x;
        }
        w.push_back(left);
        break;
      }
      }
      lookup(w, d);
      pick<int>("weighted", &w, w.size(), weighted(w, of && w.size() > 0 && w.size() < 6), r, someSize(g), of && w.size() > 0 && w.size() < 6 ? AfterSplit : Own,
                of && w.size() > 0 && w.size() < 6, ixInt);
      std::vector<std::size_t> zeros(g.in(0, 5), 0);
      if (g.chance(20)) pick<int>("weighted", &zeros, zeros.size(), weighted(zeros, of && zeros.size() > 0), r, someSize(g), of && zeros.size() > 0 ? AfterSplit : Own, of && zeros.size() > 0, ixInt);
    }
    T->end();
    T->begin("containers", vt::Obj());
    for (int k = 0; k < 3; k++) {
      const auto n = someCount(g);
      fromContainer<std::vector<int>>(n, someRandom(g), someSize(g));
      fromContainer<std::list<int>>(n, someRandom(g), someSize(g));
      fromContainer<std::set<int>>(n, someRandom(g), someSize(g));
      fromContainer<std::deque<long>>(n, someRandom(g), someSize(g));
      fromContainer<std::string>(n % 150, someRandom(g), someSize(g));
      fromContainer<std::u32string>(n, someRandom(g), someSize(g));
    }
    const std::array<int, 4> arr{{100, 101, 102, 103}};
    pick<int>("equal", nullptr, 4, gen::elementOf(arr), someRandom(g), someSize(g), Own, false, ixInt);
    pick<int>("sized", nullptr, 4, gen::sizedElementOf(arr), someRandom(g), someSize(g), Own, false, ixInt);
    T->end();
    T->begin("arguments", vt::Obj());
    variadic(someRandom(g), someSize(g));
    T->end();
  }
  return 0;
}
