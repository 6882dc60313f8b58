// C12: random sequence expressions, advanced through several handles that are
// copied, assigned and moved on the way.
#include <rapidcheck.h>
#include <deque>
#include <list>
#include "vt.h"

using namespace rc;

static vt::Trace *T;

// a value that cannot be used after it was moved from
struct V {
  int x = -77;
  V() = default;
  V(int y) : x(y) {}
  V(const V &o) = default;
  V &operator=(const V &o) = default;
  V(V &&o) noexcept : x(o.x) { o.x = -99; }
  V &operator=(V &&o) noexcept {
    int t = o.x;
    o.x = -99;
    x = t;
    return *this;
  }
  bool operator==(const V &o) const { return x == o.x; }
  bool operator!=(const V &o) const { return x != o.x; }
  bool operator<(const V &o) const { return x < o.x; }
};
struct W {
  V v;
  W() = default;
  explicit W(V y) : v(std::move(y)) {}
  explicit operator V() const { return v; }
};
struct Boom {};

struct Node {
  std::string k;
  std::vector<int> c;
  int p = 0, q = 0;
  std::vector<int> v;
};
static vt::J toJ(const Node &n) { return vt::js(vt::Obj()("k", n.k)("c", n.c)("p", n.p)("q", n.q)("v", n.v)); }
static std::vector<Node> NODES; // index 0 unused
static std::vector<std::string> EVALS;
static int CALLS;
static bool TOO;

static void eval(int n, int a, const std::string &x) {
  if (++CALLS > 60) {
    TOO = true;
    throw Boom();
  }
  EVALS.push_back("[" + std::to_string(n) + "," + std::to_string(a) + "," + x + "]");
}
static int funval(int f, int x) {
  switch (f) {
  case 0: return (x + 1) % 50;
  case 1: return (2 * x) % 23;
  case 2:
    if (x % 5 == 3) throw Boom();
    return (x + 2) % 50;
  default: return x % 3;
  }
}
static bool predval(int p, int x) {
  switch (p) {
  case 0: return true;
  case 1: return x % 2 == 0;
  case 2: return x < 6;
  case 3:
    if (x % 5 == 4) throw Boom();
    return x % 2;
  default: return false;
  }
}
struct Leaf {
  int n, a, i;
  Maybe<V> operator()() {
    if (i >= NODES[n].p) return Nothing;
    int j = i++;
    eval(n, a, std::to_string(j));
    if (j + 1 == NODES[n].q) throw Boom();
    return V((n + 3 * a + 2 * j) % 10);
  }
};
// stands for a number of elements no sequence has
static const std::size_t HUGE_N = (std::size_t(1) << 32) + 2;
static Seq<V> build(int n, int a) {
  const Node &nd = NODES[n];
  auto part = [&](int i) { return build(nd.c[i], a); };
  const int p = nd.p, q = nd.q;
  auto ev = [n, a](const V &x) { eval(n, a, std::to_string(x.x)); };
  if (nd.k == "leaf") return p % 2 ? makeSeq<Leaf>(Leaf{n, a, 0}) : Seq<V>(Leaf{n, a, 0});
  if (nd.k == "just") {
    V x(nd.v[0]);
    if (nd.v.size() == 1) return seq::just(x);
    if (nd.v.size() == 2) return seq::just(V(nd.v[0]), V(nd.v[1]));
    return seq::just(x, V(nd.v[1]), V(nd.v[2]));
  }
  if (nd.k == "cont") {
    std::vector<V> v(nd.v.begin(), nd.v.end());
    const std::vector<V> cv(v);
    switch (p) {
    case 0: return seq::fromContainer(std::move(v));
    case 1: return seq::fromContainer(std::list<V>(v.begin(), v.end()));
    case 2: return seq::fromContainer(std::set<V>(v.begin(), v.end()));
    case 3: {
      auto s = seq::fromContainer(cv);
      T->ev(vt::Obj("src")("ok", cv == v));
      return s;
    }
    case 4: return seq::fromIteratorRange(cv.begin(), cv.end());
    case 5: {
      auto s = seq::fromContainer(v);
      auto s2 = s;
      s2.next();
      T->ev(vt::Obj("src")("ok", cv == v));
      return s;
    }
    default: return seq::fromContainer(std::deque<V>(v.begin(), v.end()));
    }
  }
  if (nd.k == "repeat") {
    const V v(p);
    return p % 2 ? seq::repeat(v) : seq::repeat(V(p));
  }
  if (nd.k == "index") return seq::map(seq::index(), [](std::size_t i) { return V(int(i)); });
  if (nd.k == "iterate")
    return seq::iterate(V(p), [=](V x) {
      ev(x);
      return V(funval(q, x.x));
    });
  if (nd.k == "range") {
    if ((p + q) % 4 == 3) {
      const std::uint64_t base = (std::uint64_t(1) << 63) - 2;
      return seq::map(seq::range<std::uint64_t>(base + p, base + q), [=](std::uint64_t i) { return V(int(i - base)); });
    }
    if ((p + q) % 4 == 2) return seq::map(seq::range<signed char>(p - 4, q - 4), [](signed char i) { return V(i + 4); });
    if (p % 3 == 0) return seq::map(seq::range<std::size_t>(p, q), [](std::size_t i) { return V(int(i)); });
    if (p % 3 == 1) return seq::map(seq::range<int>(p, q), [](int i) { return V(i); });
    return seq::map(seq::range<unsigned char>(p, q), [](unsigned char i) { return V(i); });
  }
  if (nd.k == "subr")
    return seq::map(seq::subranges(p, q),
                    [](const std::pair<std::size_t, std::size_t> &r) { return V(int(100 * r.first + r.second)); });
  if (nd.k == "take") return seq::take(p == 1000 ? HUGE_N : p, part(0));
  if (nd.k == "drop") return seq::drop(p == 1000 ? HUGE_N : p, part(0));
  if (nd.k == "map")
    return seq::map(part(0), [=](V &&x) {
      ev(x);
      V y(std::move(x));
      return V(funval(p, y.x));
    });
  if (nd.k == "cast") return seq::cast<V>(seq::cast<W>(part(0)));
  auto pred = [=](const V &x) {
    ev(x);
    return predval(p, x.x);
  };
  if (nd.k == "filter") return seq::filter(part(0), pred);
  if (nd.k == "takewhile") return seq::takeWhile(part(0), pred);
  if (nd.k == "dropwhile") return seq::dropWhile(part(0), pred);
  if (nd.k == "mapmaybe")
    return seq::mapMaybe(part(0), [=](V &&x) -> Maybe<V> {
      ev(x);
      if (p == 1 && x.x % 7 == 6) throw Boom();
      if (x.x % 2) return Nothing;
      return V(x.x / 2);
    });
  if (nd.k == "concat") {
    if (nd.c.size() == 1) return seq::concat(part(0));
    if (nd.c.size() == 2) return seq::concat(part(0), part(1));
    return seq::concat(part(0), part(1), part(2));
  }
  if (nd.k == "mapcat" || nd.k == "join") {
    int c = nd.c[1];
    auto second = [=](V &&x) {
      ev(x);
      if (p == 1 && x.x % 6 == 5) throw Boom();
      return build(c, x.x % 4);
    };
    if (nd.k == "mapcat") return seq::mapcat(part(0), second);
    return seq::join(seq::map(part(0), second));
  }
  if (nd.k == "cycle") return seq::cycle(part(0));
  if (nd.k == "zip") {
    auto z = [=](const std::vector<int> &v) {
      std::string o;
      int s = 0, w = 0;
      for (int x : v) {
        o += (o.empty() ? "" : ",") + std::to_string(x);
        s += x;
      }
      eval(n, a, "[" + o + "]");
      if (p == 1 && s % 7 == 6) throw Boom();
      w = v.size() == 2 ? 3 * v[0] + v[1] : 5 * v[0] + 3 * v[1] + v[2];
      return V(w % 50);
    };
    if (nd.c.size() == 2) return seq::zipWith([z](const V &x, V y) { return z({x.x, y.x}); }, part(0), part(1));
    return seq::zipWith([z](V &&x, const V &y, V w) { return z({x.x, y.x, w.x}); }, part(0), part(1), part(2));
  }
  std::abort();
}

static int make(vt::Rng &rng, int depth, bool nonEmpty = false) {
  NODES.emplace_back();
  const int me = int(NODES.size()) - 1;
  Node nd;
  auto kid = [&] { return make(rng, depth - 1); };
  if (depth <= 0 || nonEmpty || rng.chance(15)) {
    switch (nonEmpty ? 3 + rng.below(4) : rng.below(10)) {
    case 0:
    case 1:
    case 2:
      nd.k = "leaf";
      nd.p = rng.below(5);
      nd.q = rng.chance(30) ? 1 + rng.below(4) : 0;
      break;
    case 3:
      nd.k = "just";
      for (int i = rng.in(1, 3); i > 0; i--) nd.v.push_back(rng.below(10));
      break;
    case 4:
      nd.k = "cont";
      nd.p = rng.below(7);
      for (int i = rng.in(nonEmpty, 4); i > 0; i--) nd.v.push_back(nd.p == 2 ? 10 - 2 * i : rng.below(10));
      break;
    case 5:
      nd.k = "repeat";
      nd.p = rng.below(10);
      break;
    case 6:
      nd.k = "range";
      nd.p = rng.below(8);
      nd.q = (nd.p + (nonEmpty ? rng.in(1, 7) : rng.below(8))) % 8;
      break;
    case 7: nd.k = "index"; break;
    case 8:
      nd.k = "iterate";
      nd.p = rng.below(10);
      nd.q = rng.below(4);
      break;
    default:
      nd.k = "subr";
      nd.p = rng.below(3);
      nd.q = nd.p + rng.below(4);
    }
    NODES[me] = nd;
    return me;
  }
  static const char *one[] = {"take", "drop", "map", "cast", "filter", "takewhile", "dropwhile", "mapmaybe"};
  int r = rng.below(13);
  if (r < 8) {
    nd.k = one[r];
    nd.p = r < 2 ? rng.below(5) : nd.k == "map" ? rng.below(4) : nd.k == "mapmaybe" ? rng.below(2) : rng.below(5);
    if (nd.k == "cast") nd.p = 0;
    nd.c = {kid()};
    const Node &c = NODES[nd.c[0]];
    if (r < 2 && rng.chance(10) && (r == 0 || c.k == "leaf" || c.k == "just" || c.k == "cont" || c.k == "range")) nd.p = 1000;
  } else if (r == 8) {
    nd.k = "concat";
    for (int i = rng.in(1, 3); i > 0; i--) nd.c.push_back(kid());
  } else if (r == 9 || r == 10) {
    nd.k = r == 9 ? "mapcat" : "join";
    nd.p = rng.chance(30);
    nd.c = {kid(), 0};
    nd.c[1] = kid();
  } else if (r == 11) {
    nd.k = "cycle";
    nd.c = {make(rng, 0, true)};
  } else {
    nd.k = "zip";
    nd.p = rng.chance(40);
    for (int i = rng.in(2, 3); i > 0; i--) nd.c.push_back(kid());
  }
  NODES[me] = nd;
  return me;
}

static std::string ints(const std::vector<int> &v) { return vt::js(v).s; }
static vt::J mb(const Maybe<V> &m) { return vt::J(m ? "[" + std::to_string(m->x) + "]" : "[]"); }
static vt::J evals() {
  std::string o = "[";
  for (auto &e : EVALS) o += (o.size() > 1 ? "," : "") + e;
  EVALS.clear();
  CALLS = 0;
  return vt::J(o + "]");
}
static void scenario(vt::Rng &rng) {
  do {
    NODES.assign(1, Node());
    make(rng, rng.in(0, 3));
  } while (NODES.size() > 16);
  std::vector<Node> all(NODES.begin() + 1, NODES.end());
  std::string nj = "[";
  for (auto &x : all) nj += (nj.size() > 1 ? "," : "") + toJ(x).s;
  TOO = false;
  evals();
  T->begin(NODES[1].k, vt::Obj()("nodes", vt::J(nj + "]")));
  {
    std::vector<Seq<V>> hs(6);
    std::vector<bool> live(6, false);
    hs[0] = build(1, 0);
    live[0] = true;
    if (!EVALS.empty()) T->ev(vt::Obj("early"));
    int steps = rng.in(6, 25);
    auto some = [&] {
      int h;
      do h = rng.below(6);
      while (!live[h]);
      return h;
    };
    for (int s = 0; s < steps && !TOO; s++) {
      int h = some(), r = rng.below(100);
      if (r < 60) {
        auto x = hs[h].next();
        T->ev(vt::Obj("next")("h", h + 1)("r", mb(x))("ev", evals()));
      } else if (r < 75) {
        int to = rng.below(6);
        if (rng.below(2)) {
          Seq<V> c(hs[h]);
          hs[to] = std::move(c);
        } else {
          const Seq<V> &from = hs[h];
          hs[to] = from; // self-assignment included
        }
        live[to] = true;
        T->ev(vt::Obj("copy")("h", h + 1)("to", to + 1));
      } else if (r < 80) {
        int to = rng.below(6);
        if (to == h) continue;
        hs[to] = std::move(hs[h]);
        live[to] = true;
        live[h] = false;
        T->ev(vt::Obj("move")("h", h + 1)("to", to + 1));
        if (rng.below(2)) {
          // assignment from an empty one, and using it
          hs[h] = rng.below(2) ? Seq<V>() : Seq<V>(Nothing);
          auto x = hs[h].next();
          live[h] = true;
          T->ev(vt::Obj("next")("h", h + 1)("r", mb(x))("ev", evals()));
        }
      } else if (r < 83) {
        int n = 0;
        for (bool b : live) n += b;
        if (n < 2) continue;
        Seq<V> empty;
        hs[h] = empty;
        live[h] = false;
        T->ev(vt::Obj("drop")("h", h + 1));
      } else if (r < 93) {
        auto cut = [&] {
          CALLS = -1000;
          return seq::take(15, hs[h]);
        };
        int i = rng.chance(10) ? 1000 : rng.below(8), x = rng.below(10), p = rng.below(3);
        int len = int(seq::length(cut()));
        std::vector<int> each, iter;
        seq::forEach(cut(), [&](V &&v) { each.push_back(V(std::move(v)).x); });
        auto sq = cut();
        for (auto it = begin(sq), e = end(sq); it != e;) {
          if (rng.below(2)) {
            iter.push_back((*it).x);
            ++it;
          } else {
            auto old = it++;
            iter.push_back((*old).x);
          }
        }
        auto last = seq::last(cut());
        auto at = seq::at(cut(), i == 1000 ? HUGE_N : i);
        bool contains = seq::contains(cut(), V(x));
        auto pr = [=](const V &v) { return predval(p, v.x); };
        bool allr = seq::all(cut(), pr);
        bool anyr = seq::any(cut(), pr);
        evals();
        T->ev(vt::Obj("whole")("h", h + 1)("len", len)("each", each)("iter", iter)("last", mb(last))("i", i)("at", mb(at))("x", x)(
            "contains", contains)("p", p)("all", allr)("any", anyr));
      } else {
        int g = some();
        CALLS = -1000;
        bool eq = seq::take(15, hs[h]) == seq::take(15, hs[g]);
        bool ne = seq::take(15, hs[h]) != seq::take(15, hs[g]);
        evals();
        T->ev(vt::Obj("eq")("h", h + 1)("g", g + 1)("r", eq)("ne", ne));
      }
    }
  }
  if (TOO) T->abandon(), T->resume();
  else T->end();
}

void longSequences(const vt::Args &a); // longseqs.cpp

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng rng(a.seed);
  const int n = a.thorough ? 30000 : 4000;
  for (int i = 0; i < n; i++) scenario(rng);
  longSequences(a);
  return 0;
}
