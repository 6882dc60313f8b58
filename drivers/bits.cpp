// Integers read from random bits, scaled by size, and in ranges (property C21).
#include "vt.h"
#include <cmath>
#include <functional>
#include <rapidcheck.h>
#include "rapidcheck/detail/BitStream.h"
#include "rapidcheck/gen/detail/ScaleInteger.h"

using namespace rc;
using rc::detail::bitStreamOf;

static vt::Trace *T;

static vt::J limbs(const std::vector<std::uint64_t> &v) {
  std::string s = "[";
  for (auto x : v) s += (s.size() > 1 ? "," : "") + vt::u64(x).s;
  return vt::J(s + "]");
}
template <typename N>
struct Source {
  const std::vector<std::uint64_t> &words;
  std::size_t used = 0;
  explicit Source(const std::vector<std::uint64_t> &w) : words(w) {}
  N next() {
    const auto i = used++;
    return i < words.size() ? static_cast<N>(words[i]) : N(0);
  }
};
// value as a 64-bit word, sign-extended for signed types
template <typename I>
static std::uint64_t word64(I x) {
  return static_cast<std::uint64_t>(static_cast<std::int64_t>(x));
}
static std::uint64_t word64(unsigned char x) { return x; }
static std::uint64_t word64(unsigned short x) { return x; }
static std::uint64_t word64(unsigned int x) { return x; }
static std::uint64_t word64(unsigned long x) { return x; }
static std::uint64_t word64(unsigned long long x) { return x; }

template <typename S>
struct Reader {
  S &src;
  vt::Rng &g;
  detail::BitStream<S &> stream;
  Reader(S &s, vt::Rng &gg) : src(s), g(gg), stream(bitStreamOf(s)) {}
  template <typename I>
  void some() {
    const int w = static_cast<int>(sizeof(I) * 8);
    const bool plain = g.chance(70);
    vt::Obj o(plain ? "read" : "sized");
    const bool sg = std::is_signed<I>::value;
    if (plain) {
      const int n = g.chance(20) ? w : g.chance(10) ? g.in(w, 200) : g.in(0, w);
      const I v = n == w && g.chance(50) ? stream.template next<I>() : stream.template next<I>(n);
      T->ev(o("w", w)("sg", sg)("n", n)("v", vt::u64(word64(v)))("used", src.used));
    } else {
      const int size = g.chance(10) ? g.in(100, 1000000) : g.chance(10) ? g.pick(std::vector<int>{0, 1, 49, 50, 51, 99, 0x7fffffff, 33554432}) : g.in(0, 100);
      const I v = stream.template nextWithSize<I>(size);
      T->ev(o("w", w)("sg", sg)("size", size)("v", vt::u64(word64(v)))("used", src.used));
    }
  }
  void flag() {
    const int how = g.in(0, 2);
    const bool v = how == 0 ? stream.template next<bool>() : how == 1 ? stream.template next<bool>(g.in(0, 5)) : stream.template nextWithSize<bool>(g.in(0, 200));
    T->ev(vt::Obj("flag")("v", vt::u64(v))("used", src.used));
  }
  void any() {
    switch (g.in(0, 9)) {
    case 0: some<std::int8_t>(); break;
    case 1: some<std::uint8_t>(); break;
    case 2: some<std::int16_t>(); break;
    case 3: some<std::uint16_t>(); break;
    case 4: some<std::int32_t>(); break;
    case 5: some<std::uint32_t>(); break;
    case 6: some<std::int64_t>(); break;
    case 7: some<std::uint64_t>(); break;
    case 8: some<char>(); break;
    default: flag(); break;
    }
  }
};
template <typename N>
static void stream(vt::Rng &g, int reads) {
  std::vector<std::uint64_t> words;
  const int kind = g.in(0, 3);
  for (int i = 0; i < reads * 64 / static_cast<int>(sizeof(N) * 8) + 2; i++)
    words.push_back(static_cast<N>(kind == 0 ? g.next() : kind == 1 ? ~std::uint64_t(0) : kind == 2 ? (i % 2 ? 0 : ~std::uint64_t(0)) : g.next() & g.next()));
  T->begin("stream", vt::Obj()("width", sizeof(N) * 8)("words", limbs(words)));
  Source<N> s(words);
  Reader<Source<N>> r(s, g);
  for (int i = 0; i < reads; i++) r.any();
  T->end();
}

static Random someRandom(vt::Rng &g) { return Random(g.next()); }
static int someSize(vt::Rng &g) {
  return g.chance(15) ? 0 : g.chance(15) ? 100 : g.chance(10) ? g.pick(std::vector<int>{101, 150, 1000, 100000, 33554432, 0x7fffffff}) : g.in(0, 105);
}
static std::vector<std::uint64_t> wordsOf(Random r, std::size_t n) {
  std::vector<std::uint64_t> w;
  for (std::size_t i = 0; i < n; i++) w.push_back(r.next());
  return w;
}
template <typename I>
static void arb(vt::Rng &g) {
  const auto r = someRandom(g);
  const int size = someSize(g);
  const I v = gen::arbitrary<I>()(r, size).value();
  T->ev(vt::Obj("arb")("w", std::is_same<I, bool>::value ? 1 : sizeof(I) * 8)("sg", std::is_signed<I>::value)("size", size)("word", vt::u64(wordsOf(r, 1)[0]))("v", vt::u64(word64(v))));
}
template <typename I>
static I someEnd(vt::Rng &g) {
  using L = std::numeric_limits<I>;
  switch (g.in(0, 6)) {
  case 0: return L::min();
  case 1: return L::max();
  case 2: return static_cast<I>(L::max() - static_cast<I>(g.in(0, 3)));
  case 3: return static_cast<I>(L::min() + static_cast<I>(g.in(0, 3)));
  case 4: return static_cast<I>(g.in(0, 5) - (std::is_signed<I>::value ? 2 : 0));
  default: return static_cast<I>(g.next());
  }
}
template <typename I>
static void range(vt::Rng &g) {
  const I lo = someEnd<I>(g);
  const I hi = g.chance(15) ? static_cast<I>(lo + (lo < std::numeric_limits<I>::max() - 100 ? g.in(0, 100) : 0)) : someEnd<I>(g);
  const auto r = someRandom(g);
  const int size = someSize(g);
  vt::Obj o("range");
  o("sg", std::is_signed<I>::value)("lo", vt::u64(word64(lo)))("hi", vt::u64(word64(hi)))("size", size)("word", vt::u64(wordsOf(r, 1)[0]));
  std::uint64_t v = 0;
  std::string res = "val";
  try {
    v = word64(static_cast<I>(gen::inRange<I>(lo, hi)(r, size).value()));
  } catch (const GenerationFailure &) {
    res = "fail";
  } catch (...) { res = "other"; }
  T->ev(o("res", res)("v", vt::u64(v)));
}
template <typename F>
static void real(vt::Rng &g, int tol) {
  const auto r = someRandom(g);
  const int size = g.in(0, 22);
  const double v = static_cast<double>(gen::arbitrary<F>()(r, size).value());
  const double x = std::floor(v * 65536.0);
  T->ev(vt::Obj("real")("size", size)("words", limbs(wordsOf(r, 3)))("tol", tol)("v", x > 2e9 ? 2000000000 : x < -2e9 ? -2000000000 : std::isnan(x) ? 2000000000 : static_cast<int>(x)));
}
template <typename S>
static void text(vt::Rng &g) {
  using C = typename S::value_type;
  const auto r = someRandom(g);
  const int size = g.chance(20) ? g.in(0, 3) : g.in(0, 40);
  const S s = gen::arbitrary<S>()(r, size).value();
  const int w = sizeof(C) * 8;
  std::vector<std::uint64_t> v;
  for (C c : s) v.push_back(word64(c) & (~std::uint64_t(0) >> (64 - w)));
  T->ev(vt::Obj("text")("w", w)("sg", std::is_signed<C>::value)("size", size)("words", limbs(wordsOf(r, 4 + s.size() * (w + 1) / 64 + s.size() / 3)))("v", limbs(v)));
  const C c = gen::character<C>()(r, size).value();
  T->ev(vt::Obj("char")("w", w)("sg", std::is_signed<C>::value)("words", limbs(wordsOf(r, 8)))("v", vt::u64(word64(c) & (~std::uint64_t(0) >> (64 - w)))));
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng g(a.seed);
  const int m = a.thorough ? 8 : 1;
  for (int i = 0; i < 150 * m; i++) {
    switch (g.in(0, 5)) {
    case 0: stream<std::uint8_t>(g, g.in(1, 25)); break;
    case 1: stream<std::uint16_t>(g, g.in(1, 25)); break;
    case 2: stream<std::uint32_t>(g, g.in(1, 25)); break;
    default: stream<std::uint64_t>(g, g.in(1, 40)); break;
    }
  }
  // the library's own source
  for (int i = 0; i < 40 * m; i++) {
    const auto r = someRandom(g);
    const auto words = wordsOf(r, 60);
    struct Counting {
      Random r;
      std::size_t used;
      Random::Number next() {
        used++;
        return r.next();
      }
    } src{r, 0};
    T->begin("random source", vt::Obj()("width", 64)("words", limbs(words)));
    Reader<Counting> rd(src, g);
    for (int k = 0; k < 50; k++) rd.any();
    T->end();
  }
  const auto none = vt::Obj()("width", 64)("words", vt::J("[]"));
  for (int i = 0; i < 60 * m; i++) {
    T->begin("scale", none);
    for (int k = 0; k < 6; k++) {
      // products whose halves carry, and ties
      const std::uint32_t b = g.in(0, 49) * 2 + 1;
      std::uint32_t inv = b;
      for (int q = 0; q < 5; q++) inv *= 2 - b * inv;
      const std::uint32_t ah = static_cast<std::uint32_t>(0u - g.in(1, b)) * inv;
      const std::uint64_t x = g.chance(70) ? (std::uint64_t(ah) << 32) | (0xffffffffu - g.in(0, 40)) : g.next() / 100 * 100 + g.pick(std::vector<int>{0, 25, 50, 75, 10, 20});
      const int size = g.chance(70) ? static_cast<int>(b) : g.pick(std::vector<int>{1, 2, 5, 10, 50, 99});
      T->ev(vt::Obj("scale")("x", vt::u64(x))("size", size)("y", vt::u64(gen::detail::scaleInteger(x, size))));
    }
    for (int k = 0; k < 15; k++) {
      const std::uint64_t x = g.chance(20) ? ~std::uint64_t(0) - g.in(0, 3) : g.chance(30) ? g.in(0, 300) : g.next() >> g.in(0, 63);
      const int size = someSize(g);
      T->ev(vt::Obj("scale")("x", vt::u64(x))("size", size)("y", vt::u64(gen::detail::scaleInteger(x, size))));
    }
    T->end();
    T->begin("integers", none);
    for (int k = 0; k < 2; k++) {
      arb<char>(g), arb<signed char>(g), arb<unsigned char>(g), arb<short>(g), arb<unsigned short>(g), arb<int>(g), arb<unsigned>(g), arb<long>(g);
      arb<unsigned long>(g), arb<long long>(g), arb<unsigned long long>(g), arb<bool>(g), arb<wchar_t>(g), arb<char16_t>(g), arb<char32_t>(g);
    }
    T->end();
    T->begin("ranges", none);
    for (int k = 0; k < 3; k++) {
      range<signed char>(g), range<char>(g), range<unsigned char>(g), range<short>(g), range<unsigned short>(g), range<int>(g), range<unsigned>(g), range<long>(g);
      range<unsigned long>(g), range<long long>(g), range<unsigned long long>(g);
    }
    T->end();
    T->begin("reals", none);
    for (int k = 0; k < 3; k++) real<double>(g, 2), real<float>(g, 130), real<long double>(g, 2);
    T->end();
    T->begin("texts", none);
    for (int k = 0; k < 2; k++) text<std::string>(g), text<std::wstring>(g), text<std::u16string>(g), text<std::u32string>(g);
    T->end();
  }
  return 0;
}
