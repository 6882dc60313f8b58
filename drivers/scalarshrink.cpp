// C08: shrink lists of scalars, through the shrink functions and generators.
#include <rapidcheck.h>
#include "vt.h"
#include <limits>

using namespace rc;
static vt::Trace *T;

template <typename I>
static vt::J num(I x) {
  const bool neg = x < 0;
  const uint64_t m = neg ? uint64_t(0) - static_cast<uint64_t>(static_cast<long long>(x)) : static_cast<uint64_t>(x);
  return vt::J(std::string("[") + (neg ? "true" : "false") + "," + vt::u64(m).s + "]");
}
static vt::J bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return vt::u64(u);
}
static vt::J chr(char c) { return vt::js(static_cast<unsigned char>(c)); }
static vt::J chr(wchar_t c) { return vt::js(static_cast<long long>(c)); }

template <typename X, typename F>
static vt::J listOf(Seq<X> s, F f) {
  std::string o;
  int n = 0;
  while (auto x = s.next()) {
    o += (o.empty() ? "" : ",") + f(*x).s;
    if (++n > 200) break;
  }
  return vt::J("[" + o + "]");
}
template <typename X>
static std::vector<X> all(Seq<X> q) {
  auto s = vt::reader(std::move(q));
  std::vector<X> v;
  while (auto x = s.next()) {
    v.push_back(*x);
    if (v.size() > 200) break;
  }
  return v;
}
// a walk through the list function f from v
template <typename X, typename L, typename F>
static void walk(const std::string &name, const vt::Obj &cfg, X v, L f, F j, vt::Rng &rng, int steps) {
  T->begin(name, cfg);
  for (int i = 0; i < steps; i++) {
    T->ev(vt::Obj("at")("v", j(v)));
    const auto xs = all<X>(f(v));
    std::string o;
    for (auto x : xs) o += (o.empty() ? "" : ",") + j(x).s;
    T->ev(vt::Obj("shrinks")("list", vt::J("[" + o + "]")));
    if (xs.empty()) break;
    v = rng.chance(50) ? xs.back() : rng.pick(xs);
  }
  T->end();
}
// a walk through the shrink tree of a generated value
template <typename X, typename F>
static void walkTree(const std::string &name, const vt::Obj &cfg, const Gen<X> &g, F j, vt::Rng &rng, int steps) {
  T->begin(name, cfg);
  auto s = g(Random(rng.next()), rng.in(0, 120));
  for (int i = 0; i < steps; i++) {
    T->ev(vt::Obj("at")("v", j(s.value())));
    const auto xs = all(s.shrinks());
    std::string o;
    for (auto &x : xs) o += (o.empty() ? "" : ",") + j(x.value()).s;
    T->ev(vt::Obj("shrinks")("list", vt::J("[" + o + "]")));
    if (xs.empty()) break;
    s = rng.pick(xs);
  }
  T->end();
}

template <typename I>
static I wild(vt::Rng &rng) {
  using L = std::numeric_limits<I>;
  const uint64_t r = rng.next();
  switch (rng.in(0, 7)) {
  case 0: return L::min();
  case 1: return L::max();
  case 2: return static_cast<I>(static_cast<uint64_t>(L::min()) + rng.in(0, 3));
  case 3: return static_cast<I>(static_cast<uint64_t>(L::max()) - rng.in(0, 3));
  case 4: return static_cast<I>(rng.in(-3, 3));
  case 5: return static_cast<I>((uint64_t(1) << rng.in(0, int(sizeof(I)) * 8 - 1)) - rng.in(0, 2));
  default: return static_cast<I>(r >> rng.in(0, int(64 - 8 * sizeof(I)) + int(sizeof(I)) * 8 - 1));
  }
}

template <typename I>
static void integers(const char *name, vt::Rng &rng, int n) {
  const vt::Obj icfg = vt::Obj()("kind", "integral")("type", name)("min", num(std::numeric_limits<I>::min()));
  for (int i = 0; i < n; i++) {
    walk<I>("integral", icfg, wild<I>(rng), [](I v) { return shrink::integral<I>(v); }, [](I v) { return num(v); }, rng, 4);
    const I t = wild<I>(rng);
    walk<I>("towards", vt::Obj()("kind", "towards")("type", name)("target", num(t)), wild<I>(rng),
            [=](I v) { return shrink::towards<I>(v, t); }, [](I v) { return num(v); }, rng, 3);
    walkTree<I>("arbitrary", icfg, gen::arbitrary<I>(), [](I v) { return num(v); }, rng, 4);
    I a = wild<I>(rng), b = wild<I>(rng);
    if (a == b) continue;
    if (b < a) std::swap(a, b);
    walkTree<I>("inRange", vt::Obj()("kind", "towards")("type", name)("target", num(a)), gen::inRange<I>(a, b),
                [](I v) { return num(v); }, rng, 4);
  }
}
template <typename I>
static void exhaustive(const char *name, vt::Rng &rng) {
  const vt::Obj icfg = vt::Obj()("kind", "integral")("type", name)("min", num(std::numeric_limits<I>::min()));
  for (int v = std::numeric_limits<I>::min(); v <= std::numeric_limits<I>::max(); v++)
    walk<I>("integral", icfg, I(v), [](I x) { return shrink::integral<I>(x); }, [](I x) { return num(x); }, rng, 1);
  for (int t = std::numeric_limits<I>::min(); t <= std::numeric_limits<I>::max(); t += 17)
    for (int v = std::numeric_limits<I>::min(); v <= std::numeric_limits<I>::max(); v += 3)
      walk<I>("towards", vt::Obj()("kind", "towards")("type", name)("target", num(I(t))), I(v),
              [=](I x) { return shrink::towards<I>(x, I(t)); }, [](I x) { return num(x); }, rng, 1);
}
template <typename R>
static R wildReal(vt::Rng &rng) {
  const double sign = rng.chance(50) ? -1 : 1;
  switch (rng.in(0, 8)) {
  case 0: return R(sign * 0.0);
  case 1: return R(sign) * std::numeric_limits<R>::max();
  case 2: return R(sign) * std::numeric_limits<R>::min();
  case 3: return R(sign) * std::numeric_limits<R>::denorm_min();
  case 4: return R(sign * rng.in(0, 5));
  case 5: return R(sign * rng.in(0, 1000) / 8.0);
  case 6: return R(sign * std::ldexp(double(rng.next() >> 11), rng.in(-60, 10)));
  case 7: return R(sign * std::ldexp(double(rng.next() >> 11), -53));
  default: return R(sign * (1.0 + double(rng.next() >> 30)));
  }
}
template <typename R>
static void reals(const char *name, vt::Rng &rng, int n) {
  for (int i = 0; i < n; i++) {
    walk<R>("real", vt::Obj()("kind", "real")("type", name), wildReal<R>(rng), [](R v) { return shrink::real<R>(v); },
            [](R v) { return bits(double(v)); }, rng, 4);
    walkTree<R>("arbitrary real", vt::Obj()("kind", "real")("type", name), gen::arbitrary<R>(),
                [](R v) { return bits(double(v)); }, rng, 4);
  }
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng rng(a.seed);
  const int n = a.thorough ? 600 : 60;
  exhaustive<signed char>("int8", rng);
  exhaustive<unsigned char>("uint8", rng);
  integers<char>("char", rng, n);
  integers<signed char>("int8", rng, n);
  integers<unsigned char>("uint8", rng, n);
  integers<short>("short", rng, n);
  integers<unsigned short>("ushort", rng, n);
  integers<int>("int", rng, n);
  integers<unsigned>("unsigned", rng, n);
  integers<long>("long", rng, n);
  integers<unsigned long>("ulong", rng, n);
  integers<long long>("llong", rng, n);
  integers<unsigned long long>("ullong", rng, n);
  reals<double>("double", rng, 3 * n);
  reals<float>("float", rng, 3 * n);
  for (int b = 0; b < 2; b++)
    walk<bool>("boolean", vt::Obj()("kind", "boolean"), bool(b), [](bool x) { return shrink::boolean(x); },
               [](bool x) { return vt::js(x); }, rng, 3);
  for (int i = 0; i < 20; i++)
    walkTree<bool>("arbitrary bool", vt::Obj()("kind", "boolean"), gen::arbitrary<bool>(), [](bool x) { return vt::js(x); }, rng, 3);
  const vt::Obj ccfg = vt::Obj()("kind", "character");
  for (int c = 1; c < 256; c++)
    walk<char>("character", ccfg, char(c), [](char x) { return shrink::character<char>(x); }, [](char x) { return chr(x); }, rng, 3);
  for (int i = 0; i < 5 * n; i++) {
    const wchar_t c = rng.chance(50) ? rng.in(1, 0x3ff) : rng.in(1, 0x10ffff);
    walk<wchar_t>("wide character", ccfg, c, [](wchar_t x) { return shrink::character<wchar_t>(x); },
                  [](wchar_t x) { return chr(x); }, rng, 2);
    walkTree<char>("gen character", ccfg, gen::character<char>(), [](char x) { return chr(x); }, rng, 3);
    walkTree<wchar_t>("gen wide character", ccfg, gen::character<wchar_t>(), [](wchar_t x) { return chr(x); }, rng, 3);
  }
  return 0;
}
