// C12: sequences of up to hundreds of thousands of elements, read to the end,
// copied on the way.
#include <rapidcheck.h>
#include <deque>
#include "vt.h"

using namespace rc;

namespace {
const long INF = 1000000000;
struct Node {
  std::string k;
  std::vector<int> c;
  int p = 0, q = 0;
  long len = 0;
  // work to read all of it, or (without an end) that many elements
  double work(double n) const { return len < INF ? total : n * per; }
  double total = 0, per = 1;
};
std::vector<Node> NODES; // index 0 unused

Seq<long> build(int n) {
  const Node &nd = NODES[n];
  const long p = nd.p, q = nd.q;
  if (nd.k == "range") {
    if (p % 3 == 0) return seq::range<long>(p, q);
    if (p % 3 == 1) return seq::cast<long>(seq::range<int>(p, q));
    // far from zero
    const std::uint64_t base = (std::uint64_t(1) << 63) - 100000;
    return seq::map(seq::range<std::uint64_t>(base + p, base + q), [=](std::uint64_t x) { return long(x - base); });
  }
  if (nd.k == "walk") return seq::iterate(p, [=](long x) { return x + q; });
  if (nd.k == "cont") {
    std::vector<long> v;
    for (long i = 0; i < q; i++) v.push_back((7 * i + p) % 1000);
    if (p % 2) return seq::fromContainer(std::deque<long>(v.begin(), v.end()));
    if (p % 3) return seq::fromIteratorRange(v.begin(), v.end());
    return seq::fromContainer(v);
  }
  if (nd.k == "pairs") {
    const std::size_t off = p % 2 ? 0 : std::size_t(1) << 40;
    return seq::map(seq::subranges(off, off + p), [=](const std::pair<std::size_t, std::size_t> &r) {
      return long(1000 * (r.first - off) + (r.second - off));
    });
  }
  if (nd.k == "add") return seq::map(build(nd.c[0]), [=](long x) { return x + p; });
  if (nd.k == "take") return seq::take(p, build(nd.c[0]));
  if (nd.k == "drop") return seq::drop(p, build(nd.c[0]));
  if (nd.k == "cycle") return seq::cycle(build(nd.c[0]));
  if (nd.k == "concat") return seq::concat(build(nd.c[0]), build(nd.c[1]));
  if (nd.k == "zip") return seq::zipWith([](long x, long y) { return x - y; }, build(nd.c[0]), build(nd.c[1]));
  if (nd.k == "blow") {
    if (p % 2) return seq::mapcat(build(nd.c[0]), [=](long x) { return seq::take(p, seq::repeat(x)); });
    return seq::join(seq::map(build(nd.c[0]), [=](long x) { return seq::take(p, seq::repeat(x)); }));
  }
  if (nd.k == "mod") return seq::filter(seq::range<long>(0, q), [=](long x) { return x % p == 0; });
  if (nd.k == "modm") return seq::mapMaybe(seq::range<long>(0, q), [=](long x) { return x % p == 0 ? Maybe<long>(x) : Maybe<long>(); });
  if (nd.k == "while") return seq::takeWhile(seq::range<long>(0, q), [=](long x) { return x < p; });
  if (nd.k == "after") return seq::dropWhile(seq::range<long>(0, q), [=](long x) { return x < p; });
  std::abort();
}

int make(vt::Rng &rng, int depth, long most, bool finite = false) {
  NODES.emplace_back();
  const int me = int(NODES.size()) - 1;
  Node nd;
  // small, near a power of two, or anything
  auto number = [&](long max) -> int {
    long x = rng.chance(30) ? rng.below(5) : rng.chance(40) ? (1L << rng.in(3, 17)) + rng.in(-1, 2) : rng.below(int(max) + 1);
    return int(x > max ? max : x);
  };
  if (depth <= 0 || rng.chance(15)) {
    switch (rng.below(finite ? 7 : 8)) {
    case 0:
      nd.k = "range";
      nd.p = number(1000);
      nd.q = number(most);
      nd.len = std::abs(nd.q - nd.p);
      break;
    case 1:
      nd.k = "cont";
      nd.p = rng.below(100);
      nd.len = nd.q = number(most);
      break;
    case 2:
      nd.k = "pairs";
      nd.p = rng.chance(20) ? rng.in(200, 400) : rng.below(40);
      nd.len = long(nd.p) * (nd.p + 1) / 2;
      break;
    case 3:
    case 4:
      nd.k = rng.below(2) ? "mod" : "modm";
      nd.p = rng.chance(30) ? 1 + number(most - 1) : rng.in(1, 3);
      nd.q = number(most);
      nd.len = (nd.q + nd.p - 1) / nd.p;
      break;
    case 5:
      nd.k = "while";
      nd.p = number(most), nd.q = number(most);
      nd.len = std::min(nd.p, nd.q);
      break;
    case 6:
      nd.k = "after";
      nd.p = number(most), nd.q = number(most);
      nd.len = std::max(0, nd.q - nd.p);
      break;
    default:
      nd.k = "walk";
      nd.p = rng.below(100), nd.q = rng.below(3);
      nd.len = INF;
    }
    nd.total = nd.k == "mod" || nd.k == "modm" || nd.k == "after" ? nd.q : nd.len;
    NODES[me] = nd;
    return me;
  }
  auto kid = [&](bool fin) { return make(rng, depth - 1, most, fin); };
  switch (rng.below(7)) {
  case 0:
    nd.k = "add";
    nd.p = rng.below(1000);
    nd.c = {kid(finite)};
    nd.len = NODES[nd.c[0]].len;
    break;
  case 1:
    nd.k = "take";
    nd.p = number(most);
    nd.c = {kid(false)};
    nd.len = std::min<long>(nd.p, NODES[nd.c[0]].len);
    break;
  case 2:
    nd.k = "drop";
    nd.p = number(most);
    nd.c = {kid(finite)};
    nd.len = NODES[nd.c[0]].len;
    if (nd.len < INF) nd.len = std::max<long>(0, nd.len - nd.p);
    break;
  case 3:
    nd.k = "concat";
    nd.c = {kid(finite)};
    nd.c.push_back(kid(finite));
    nd.len = std::min(INF, NODES[nd.c[0]].len + NODES[nd.c[1]].len);
    break;
  case 4:
    nd.k = "zip";
    nd.c = {kid(false)};
    nd.c.push_back(kid(finite));
    nd.len = std::min(NODES[nd.c[0]].len, NODES[nd.c[1]].len);
    break;
  case 5:
    nd.c = {kid(true)};
    nd.k = "cycle";
    nd.len = INF;
    if (finite || NODES[nd.c[0]].len == 0 || NODES[nd.c[0]].total > 10 * NODES[nd.c[0]].len) {
      nd.k = "add";
      nd.len = NODES[nd.c[0]].len;
    }
    break;
  default:
    nd.k = "blow";
    nd.p = rng.in(1, 4);
    nd.c = {kid(true)};
    nd.len = std::min(INF, NODES[nd.c[0]].len * nd.p);
    if (nd.len > 4 * most) {
      nd.k = "add";
      nd.len = NODES[nd.c[0]].len;
    }
  }
  for (int c : nd.c) {
    nd.total += NODES[c].work(nd.len < INF ? double(nd.len) + nd.p : 0);
    nd.per = std::max(nd.per, NODES[c].per);
  }
  if (nd.k == "cycle") nd.per = std::max(1.0, nd.total / NODES[nd.c[0]].len);
  NODES[me] = nd;
  return me;
}

vt::J mb(const Maybe<long> &m) { return vt::J(m ? "[" + std::to_string(*m) + "]" : "[]"); }
void scenario(vt::Trace &t, vt::Rng &rng, long most) {
  do {
    NODES.assign(1, Node());
    make(rng, rng.in(0, 3), most);
  } while (NODES[1].work(2.0 * most) > 20.0 * most);
  std::string nj = "[";
  for (std::size_t i = 1; i < NODES.size(); i++)
    nj += (i > 1 ? "," : "") + vt::js(vt::Obj()("k", NODES[i].k)("c", NODES[i].c)("p", NODES[i].p)("q", NODES[i].q)).s;
  t.begin(NODES[1].k, vt::Obj()("nodes", vt::J(nj + "]")));
  const Seq<long> whole = build(1);
  const long len = NODES[1].len, all = std::min(len, most);
  auto probe = [&](long i, long n) { return i < 12 || i + 6 > n || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || rng.below(200) == 0; };
  auto index = [&]() -> long {
    switch (rng.below(4)) {
    case 0: return std::max<long>(0, all - 2 + rng.below(5));
    case 1: return std::min(2 * most, (1L << rng.in(0, 17)) + rng.in(-1, 2));
    default: return rng.below(int(all) + 1);
    }
  };
  {
    // one after the other, going on with copies now and then
    Seq<long> s(whole);
    const long asked = len < INF && rng.chance(80) ? len + 3 : index() + 1;
    std::string at = "[";
    long n = 0;
    for (; n < asked; n++) {
      if (rng.below(4000) == 0 || (n > 60000 && rng.below(1000) == 0) || (n < 70000 && (n & (n - 1)) == 0 && rng.chance(20))) {
        Seq<long> c(s);
        for (int i = rng.below(4); i > 0; i--) c.next();
        if (rng.below(2)) {
          Seq<long> d(s);
          c = std::move(d);
          s = Seq<long>();
          s = c;
        }
      }
      auto x = s.next();
      if (!x) break;
      if (probe(n, std::min(asked, len)) && at.size() < 20000)
        at += (at.size() > 1 ? ",[" : "[") + std::to_string(n) + "," + std::to_string(*x) + "]";
    }
    bool ended = n < asked;
    for (int i = 0; i < 3 && ended; i++) ended = !s.next();
    t.ev(vt::Obj("read")("asked", asked)("n", n)("at", vt::J(at + "]"))("ended", ended));
  }
  for (int k = rng.in(2, 6); k > 0; k--) {
    const long n = rng.chance(50) ? index() : all + rng.below(3);
    auto cut = [&] { return seq::take(n, whole); };
    switch (rng.below(5)) {
    case 0: {
      long each = 0, iter = 0;
      seq::forEach(cut(), [&](long) { each++; });
      auto sq = cut();
      for (auto it = begin(sq), e = end(sq); it != e; ++it) iter++;
      t.ev(vt::Obj("whole")("n", n)("len", long(seq::length(cut())))("last", mb(seq::last(cut())))("each", each)("iter", iter));
      break;
    }
    case 1: {
      const long i = index();
      t.ev(vt::Obj("at")("i", i)("r", mb(seq::at(whole, i))));
      break;
    }
    case 2: {
      const long i = index();
      long j = 0, m = 0;
      const bool al = seq::all(cut(), [&](long) { return j++ != i; });
      const bool an = seq::any(cut(), [&](long) { return m++ == i; });
      t.ev(vt::Obj("pred")("n", n)("i", i)("all", al)("any", an));
      break;
    }
    case 3: {
      const long i = index();
      auto x = seq::at(whole, i);
      const long v = x ? *x : 0;
      t.ev(vt::Obj("has")("n", n)("i", i)("x", v)("r", seq::contains(cut(), v)));
      break;
    }
    default: {
      const long m = rng.chance(40) ? n : rng.chance(50) ? n + 1 : index();
      const auto other = seq::take(m, whole);
      t.ev(vt::Obj("eq")("n", n)("m", m)("r", cut() == other)("ne", cut() != other));
    }
    }
  }
  t.end();
}

} // namespace

void longSequences(const vt::Args &a) {
  vt::Trace t(a.dir, "long", 4);
  vt::Rng rng(a.seed + 77);
  const int n = a.thorough ? 4000 : 600;
  for (int i = 0; i < n; i++) scenario(t, rng, i % 3 == 0 ? 140000 : i % 3 == 1 ? 3000 : 300);
}
