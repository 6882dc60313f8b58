// Encoding and decoding of integers, strings, vectors, random states,
// reproduction data and maps of it, as bytes and as text (property C14).
// Inputs are decoded from heap blocks of exactly their size, so that the address
// sanitizer sees every read outside of them.
#include "vt.h"

#include <algorithm>
#include <iterator>
#include <list>
#include <memory>

#include <rapidcheck.h>
#include "rapidcheck/detail/Results.h"
#include "rapidcheck/detail/Serialization.h"
#include "detail/Base64.h"
#include "detail/ParseException.h"
#include "detail/StringSerialization.h"

using namespace rc;
using namespace rc::detail;
using Bytes = std::vector<std::uint8_t>;
using Map = std::unordered_map<std::string, Reproduce>;

static vt::Trace *T;
static int g_turn = 0;

static vt::J bj(const Bytes &b) { return vt::js(b); }
static Bytes toBytes(const std::string &s) { return Bytes(s.begin(), s.end()); }

// --- values -----------------------------------------------------------------
template <typename I>
static vt::J word(I x) {
  return vt::u64(static_cast<std::uint64_t>(static_cast<typename std::make_unsigned<I>::type>(x)));
}
template <typename V>
static vt::J words(const V &v) {
  std::string o;
  for (auto x : v) o += (o.empty() ? "" : ",") + word(x).s;
  return vt::J("[" + o + "]");
}

// A random state whose fields are known: key, splits taken, numbers drawn.
struct State {
  Random::Key key;
  std::vector<bool> path; // at most 64
  int drawn;
  Random make() const {
    Random r(key);
    for (bool right : path) {
      Random x = r.split();
      if (right) r = x;
    }
    for (int i = 0; i < drawn; i++) r.next();
    return r;
  }
  vt::J j() const {
    std::uint64_t bits = 0;
    for (std::size_t i = 0; i < path.size(); i++)
      if (path[i]) bits |= std::uint64_t(1) << i;
    std::vector<std::uint64_t> k(key.begin(), key.end());
    return vt::Obj()("key", words(k))("bits", vt::u64(bits))("counter", vt::u64(drawn))("bitsi", int(path.size())).j();
  }
};
struct Rep {
  State state;
  int size;
  std::vector<std::size_t> path;
  Reproduce make() const {
    Reproduce r;
    r.random = state.make();
    r.size = size;
    r.shrinkPath = path;
    return r;
  }
  vt::J j() const {
    return vt::Obj()("rnd", state.j())("size", vt::u64(std::uint32_t(size)))("path", words(path)).j();
  }
};
using Pairs = std::vector<std::pair<std::string, Rep>>;
static Map makeMap(const Pairs &p) {
  Map m;
  for (auto &x : p) m.emplace(x.first, x.second.make());
  return m;
}
static vt::J pairsJ(const Pairs &p) {
  std::string o;
  for (auto &x : p)
    o += (o.empty() ? "" : ",") + vt::Obj()("k", vt::bytes(x.first))("v", x.second.j()).j().s;
  return vt::J("[" + o + "]");
}

// --- codecs: one for every type -----------------------------------------------
template <typename I>
struct LE {
  using V = I;
  static const char *ty() { return "le"; }
  static int w() { return sizeof(I); }
  int n = 0;
  template <typename O> O enc(const V &v, O o) const { return serialize(v, o); }
  template <typename It> It dec(It b, It e, V &v) const { return deserialize(b, e, v); }
  static vt::J val(const V &v) { return word(v); }
  vt::J decoded(const V &v) const { return word(v); }
};
template <typename I>
struct Var {
  using V = I;
  static const char *ty() { return "var"; }
  static int w() { return 8 * sizeof(I); }
  int n = 0;
  template <typename O> O enc(const V &v, O o) const { return serializeCompact(v, o); }
  template <typename It> It dec(It b, It e, V &v) const { return deserializeCompact(b, e, v); }
  static vt::J val(const V &v) { return word(v); }
  vt::J decoded(const V &v) const { return word(v); }
};
struct Str {
  using V = std::string;
  static const char *ty() { return "str"; }
  static int w() { return 0; }
  int n = 0;
  template <typename O> O enc(const V &v, O o) const { return serialize(v, o); }
  template <typename It> It dec(It b, It e, V &v) const {
    v = "what was there before";
    return deserialize(b, e, v);
  }
  static vt::J val(const V &v) { return vt::bytes(v); }
  vt::J decoded(const V &v) const { return vt::bytes(v); }
};
template <typename I>
struct Vec {
  using V = std::vector<I>;
  static const char *ty() { return "vec"; }
  static int w() { return 8 * sizeof(I); }
  int n = 0;
  template <typename O> O enc(const V &v, O o) const { return serializeCompact(v.begin(), v.end(), o); }
  template <typename It> It dec(It b, It e, V &v) const {
    v.clear();
    return deserializeCompact<I>(b, e, std::back_inserter(v)).first;
  }
  static vt::J val(const V &v) { return words(v); }
  vt::J decoded(const V &v) const { return words(v); }
};
template <typename I>
struct Fix {
  using V = std::vector<I>;
  static const char *ty() { return "fix"; }
  static int w() { return sizeof(I); }
  int n = 0;
  template <typename O> O enc(const V &v, O o) const { return serializeN(v.begin(), v.size(), o); }
  template <typename It> It dec(It b, It e, V &v) const {
    v.clear();
    return deserializeN<I>(b, e, n, std::back_inserter(v));
  }
  static vt::J val(const V &v) { return words(v); }
  vt::J decoded(const V &v) const { return words(v); }
};
template <typename T, typename C>
struct Structured {
  using V = T;
  static int w() { return 0; }
  int n = 0;
  template <typename O> O enc(const V &v, O o) const { return serialize(v, o); }
  template <typename It> It dec(It b, It e, V &v) const { return deserialize(b, e, v); }
  vt::J decoded(const V &v) const {
    Bytes b;
    serialize(v, std::back_inserter(b));
    return bj(b);
  }
};
struct Rnd : Structured<Random, Rnd> {
  static const char *ty() { return "rnd"; }
};
struct RepC : Structured<Reproduce, RepC> {
  static const char *ty() { return "rep"; }
};
struct MapC : Structured<Map, MapC> {
  static const char *ty() { return "map"; }
};

// --- decoding -----------------------------------------------------------------
template <typename C, typename It>
static void decFrom(const C &c, const Bytes &in, It b, It e) {
  vt::Obj o("dec");
  o("ty", C::ty())("w", C::w())("n", c.n)("in", bj(in));
  // every other time into what an earlier decoding, even one that failed, left
  static typename C::V left{};
  static int turn = 0;
  typename C::V v = turn++ % 2 ? left : typename C::V{};
  struct Keep {
    typename C::V &from, &to;
    ~Keep() { to = from; }
  } keep{v, left};
  (void)keep;
  try {
    It end = c.dec(b, e, v);
    o("ok", true)("used", int(std::distance(b, end)))("v", c.decoded(v));
  } catch (const SerializationException &x) {
    o("ok", false)("used", 0)("v", 0);
    (void)x.message();
  } catch (...) {
    T->ev(vt::Obj("other")("in", bj(in)));
    return;
  }
  T->ev(o);
}
template <typename C>
static void dec(const C &c, const Bytes &in) {
  switch (g_turn++ % 4) {
  case 0:
  case 1: {
    std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[in.size()]);
    std::copy(in.begin(), in.end(), p.get());
    decFrom(c, in, static_cast<const std::uint8_t *>(p.get()), static_cast<const std::uint8_t *>(p.get()) + in.size());
    break;
  }
  case 2: {
    std::unique_ptr<char[]> p(new char[in.size()]);
    std::copy(in.begin(), in.end(), p.get());
    decFrom(c, in, static_cast<const char *>(p.get()), static_cast<const char *>(p.get()) + in.size());
    break;
  }
  default: {
    std::list<std::uint8_t> l(in.begin(), in.end());
    decFrom(c, in, l.begin(), l.end());
  }
  }
}
// every damage of a kind or a sample of it
template <typename C>
static void damaged(const C &c, const Bytes &b, vt::Rng &g, int budget) {
  const int n = int(b.size());
  auto some = [&](int of) { return of <= budget || g.below(of) < budget; };
  for (int k = 0; k < n; k++)
    if (some(n)) dec(c, Bytes(b.begin(), b.begin() + k));
  Bytes x = b;
  for (int k = 0; k < 3; k++) {
    x.push_back(std::uint8_t(g.next()));
    dec(c, x);
  }
  for (int i = 0; i < n; i++) {
    if (!some(n)) continue;
    x = b;
    x[i] = std::uint8_t(x[i] ^ (1u << g.in(0, 7)));
    dec(c, x);
    x = b;
    x[i] = g.pick(std::vector<std::uint8_t>{0, 0x7f, 0x80, 0xff});
    dec(c, x);
    x = b;
    x.erase(x.begin() + i);
    dec(c, x);
    x = b;
    x.insert(x.begin() + i, g.pick(std::vector<std::uint8_t>{0, 1, 0x80, 0xff, std::uint8_t(g.next())}));
    dec(c, x);
  }
}
// equal and behaving alike
template <typename A>
static bool alike(const A &a, const A &b) { return a == b; }
static bool alikeR(Random a, Random b) {
  if (!(a == b) || a != b) return false;
  for (int i = 0; i < 9; i++)
    if (a.next() != b.next()) return false;
  return true;
}
static bool alike(const Random &a, const Random &b) { return alikeR(a, b); }
static bool alike(const Reproduce &a, const Reproduce &b) {
  return a == b && alikeR(a.random, b.random) && a.size == b.size && a.shrinkPath == b.shrinkPath;
}
static bool alike(const Map &a, const Map &b) {
  if (a.size() != b.size()) return false;
  for (auto &x : a) {
    auto it = b.find(x.first);
    if (it == b.end() || !alike(x.second, it->second)) return false;
  }
  return true;
}
template <typename C>
static Bytes encode(const C &c, const typename C::V &v) {
  Bytes out;
  switch (g_turn++ % 3) {
  case 0: c.enc(v, std::back_inserter(out)); break;
  case 1: {
    std::string s;
    c.enc(v, std::back_inserter(s));
    out = toBytes(s);
    break;
  }
  default: {
    std::list<std::uint8_t> l;
    c.enc(v, std::back_inserter(l));
    out.assign(l.begin(), l.end());
    // into room of exactly that size
    std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[l.size()]);
    std::uint8_t *e = c.enc(v, p.get());
    if (e != p.get() + l.size() || !std::equal(l.begin(), l.end(), p.get())) out.clear();
  }
  }
  return out;
}
template <typename C>
static void value(const char *name, C c, const typename C::V &v, const vt::J &j, vt::Rng &g, int budget) {
  T->begin(name, vt::Obj()("ty", C::ty()));
  Bytes b = encode(c, v);
  bool eq = false;
  try {
    typename C::V w{};
    c.dec(b.begin(), b.end(), w);
    eq = alike(v, w);
  } catch (...) {
  }
  T->ev(vt::Obj("enc")("ty", C::ty())("w", C::w())("v", j)("out", bj(b))("eq", eq));
  dec(c, b);
  damaged(c, b, g, budget);
  T->end();
}
template <typename C>
static void foreign(const char *name, C c, const Bytes &b) {
  T->begin(name, vt::Obj()("ty", C::ty()));
  for (int i = 0; i < 3; i++) dec(c, b);
  T->end();
}

// --- inputs -------------------------------------------------------------------
template <typename I>
static std::vector<I> interesting(vt::Rng &g, int random) {
  std::set<std::uint64_t> s;
  const int w = 8 * sizeof(I);
  for (int k = 0; k < w; k += (k % 7 == 6 || k % 8 == 7 || k % 7 == 0) ? 1 : 1) {
    const std::uint64_t p = std::uint64_t(1) << k;
    if (k % 7 <= 1 || k % 7 == 6 || k % 8 == 7 || k % 8 == 0)
      for (std::uint64_t x : {p - 1, p, p + 1}) s.insert(std::uint64_t(typename std::make_unsigned<I>::type(x)));
  }
  s.insert(std::uint64_t(typename std::make_unsigned<I>::type(~std::uint64_t(0))));
  for (int i = 0; i < random; i++) s.insert(std::uint64_t(typename std::make_unsigned<I>::type(g.next() >> g.in(0, 63))));
  std::vector<I> r;
  for (auto x : s) r.push_back(static_cast<I>(x));
  return r;
}
template <typename I>
static void integers(const char *name, vt::Rng &g, int random) {
  for (I x : interesting<I>(g, random)) {
    value(name, LE<I>(), x, word(x), g, 8);
    value(name, Var<I>(), x, word(x), g, 10);
  }
  for (int i = 0; i < random; i++) {
    std::vector<I> v;
    for (int n = g.in(0, 5); n > 0; n--) v.push_back(static_cast<I>(g.next() >> g.in(0, 63)));
    Fix<I> f;
    f.n = int(v.size());
    value(name, f, v, words(v), g, 6);
  }
}
// all short sequences of groups around the width of the type
template <typename I>
static void overlong(const char *name, vt::Rng &g) {
  const int w = 8 * sizeof(I), full = (w + 6) / 7;
  Var<I> c;
  T->begin(name, vt::Obj()("ty", "var"));
  for (int len = std::max(1, full - 1); len <= full + 3; len++)
    for (int last : {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127})
      for (int fill : {0x80, 0xff, 0x81}) {
        Bytes b(len, std::uint8_t(fill));
        b[len - 1] = std::uint8_t(last);
        dec(c, b);
        b[len - 1] = std::uint8_t(last | 0x80);
        dec(c, b);
      }
  for (int i = 0; i < 4; i++) dec(c, Bytes(g.in(40, 300), std::uint8_t(g.pick(std::vector<int>{0x80, 0xff}))));
  T->end();
}
static State someState(vt::Rng &g) {
  State s;
  for (auto &k : s.key) k = g.pick(std::vector<std::uint64_t>{0, 1, ~std::uint64_t(0), g.next(), g.next() >> g.in(0, 63), std::uint64_t(1) << 63});
  const int n = g.pick(std::vector<int>{0, 1, 2, 7, 8, 9, 14, 31, 32, 33, 62, 63, 64, g.in(0, 64)});
  const int kind = g.in(0, 3);
  for (int i = 0; i < n; i++) s.path.push_back(kind == 0 ? false : kind == 1 ? true : g.chance(50));
  s.drawn = g.pick(std::vector<int>{0, 0, 1, 2, 3, 4, 5, 8, 127, 128, 129, g.in(0, 400), 16384});
  return s;
}
static Rep someRep(vt::Rng &g) {
  Rep r;
  r.state = someState(g);
  r.size = g.pick(std::vector<int>{0, 1, 100, 255, 256, 65535, 65536, 2147483647, g.in(0, 200)});
  const int n = g.pick(std::vector<int>{0, 0, 1, 2, 3, 10, g.chance(5) ? 150 : 4});
  for (int i = 0; i < n; i++) r.path.push_back(g.chance(70) ? g.in(0, 9) : g.next() >> g.in(0, 63));
  return r;
}
static std::string someText(vt::Rng &g, int n) {
  std::string s;
  const int kind = g.in(0, 2);
  for (int i = 0; i < n; i++)
    s.push_back(kind == 0 ? char(g.next()) : kind == 1 ? char(g.in(32, 126)) : g.pick(std::vector<char>{'\0', '\xff', 'a', '\x80', '\n'}));
  return s;
}
static Bytes someBytes(vt::Rng &g, int n) {
  Bytes b;
  for (int i = 0; i < n; i++) b.push_back(g.chance(40) ? g.pick(std::vector<std::uint8_t>{0, 1, 2, 3, 0x7f, 0x80, 0xff}) : std::uint8_t(g.next()));
  return b;
}
static Pairs somePairs(vt::Rng &g, int n) {
  Pairs p;
  std::set<std::string> seen;
  while (int(p.size()) < n) {
    std::string k = someText(g, g.pick(std::vector<int>{0, 1, 3, 12, 130}));
    if (seen.insert(k).second) p.emplace_back(k, someRep(g));
    else if (seen.size() >= 1) k += std::to_string(p.size());
  }
  return p;
}

// --- text -----------------------------------------------------------------------
static void b64e(const Bytes &b) {
  std::string s = base64Encode(b);
  T->ev(vt::Obj("b64e")("in", bj(b))("out", vt::bytes(s)));
}
static void b64d(const std::string &s) {
  vt::Obj o("b64d");
  o("in", vt::bytes(s));
  try {
    Bytes b = base64Decode(s);
    o("ok", true)("out", bj(b));
  } catch (const ParseException &) {
    o("ok", false)("out", 0);
  } catch (...) {
    T->ev(vt::Obj("other")("in", vt::bytes(s)));
    return;
  }
  T->ev(o);
}
static void textm(const std::string &s) {
  vt::Obj o("textm");
  o("in", vt::bytes(s));
  try {
    Map m = stringToReproduceMap(s);
    Bytes b;
    serialize(m, std::back_inserter(b));
    o("ok", true)("v", bj(b));
  } catch (const ParseException &) {
    o("ok", false)("v", 0);
  } catch (...) {
    T->ev(vt::Obj("other")("in", vt::bytes(s)));
    return;
  }
  T->ev(o);
}
static void texts(vt::Rng &g, bool thorough) {
  for (int n = 0; n <= (thorough ? 200 : 70); n++) {
    T->begin("base64", vt::Obj()("n", n));
    for (int k = 0; k < (n < 4 ? 6 : 2); k++) {
      Bytes b = someBytes(g, n);
      b64e(b);
      const std::string s = base64Encode(b);
      b64d(s);
      for (int i = 0; i < 4 && !s.empty(); i++) {
        std::string x = s;
        x[g.below(x.size())] = char(g.next());
        b64d(x);
        x = s.substr(0, g.below(s.size()));
        b64d(x);
        b64d(s + char(g.next()));
      }
    }
    T->end();
  }
  // every character at every place of a group
  const std::string abc = base64Encode({200, 100, 50, 25, 12, 6});
  for (int at = 0; at < 8; at++) {
    T->begin("base64 characters", vt::Obj()("at", at));
    for (int c = 0; c < 256; c++) {
      std::string x = abc;
      x[at] = char(c);
      b64d(x);
      x.resize(at + 1);
      b64d(x);
    }
    T->end();
  }
  // every bit of a group
  T->begin("base64 bits", vt::Obj());
  for (int n = 1; n <= 3; n++)
    for (int i = 0; i < 8 * n; i++) {
      Bytes b(n, 0), c(n, 0xff);
      b[i / 8] = std::uint8_t(1u << (i % 8));
      c[i / 8] = std::uint8_t(~(1u << (i % 8)));
      for (auto &x : {b, c}) {
        b64e(x);
        b64d(base64Encode(x));
      }
    }
  T->end();
  for (int i = 0; i < (thorough ? 300 : 60); i++) {
    const Pairs p = somePairs(g, g.pick(std::vector<int>{0, 1, 1, 2, 3}));
    T->begin("map as text", vt::Obj()("n", int(p.size())));
    const std::string s = reproduceMapToString(makeMap(p));
    T->ev(vt::Obj("mtext")("v", pairsJ(p))("out", vt::bytes(s)));
    textm(s);
    for (int k = 0; k < 12; k++) {
      std::string x = s;
      switch (g.in(0, 3)) {
      case 0: x.resize(g.below(x.size() + 1)); break;
      case 1: x[g.below(x.size())] = char(g.next()); break;
      case 2: x.insert(x.begin() + g.below(x.size()), 'A'); break;
      default: x[g.below(x.size())] = "ABab09+_"[g.in(0, 7)];
      }
      textm(x);
    }
    T->end();
  }
  T->begin("other text", vt::Obj());
  for (const char *s : {"", "A", "AA", "AAA", "AAAA", "BA", "_____w", "________________", "foo", "reproduce", "=", "AA==", " ", "BQ"}) textm(s);
  for (int i = 0; i < 60; i++) {
    std::string x;
    for (int n = g.in(0, 80); n > 0; n--) x.push_back("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+_"[g.in(0, 63)]);
    textm(x);
  }
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng g(a.seed);
  const int k = a.thorough ? 60 : 6;
  integers<std::uint8_t>("uint8", g, k);
  integers<signed char>("signed char", g, k);
  integers<char>("char", g, k);
  integers<std::uint16_t>("uint16", g, k);
  integers<short>("short", g, k);
  integers<std::uint32_t>("uint32", g, k);
  integers<int>("int", g, k);
  integers<std::uint64_t>("uint64", g, k);
  integers<long long>("long long", g, k);
  integers<wchar_t>("wchar_t", g, 1);
  integers<char16_t>("char16_t", g, 1);
  overlong<std::uint8_t>("over-long uint8", g);
  overlong<signed char>("over-long int8", g);
  overlong<std::uint16_t>("over-long uint16", g);
  overlong<short>("over-long int16", g);
  overlong<std::uint32_t>("over-long uint32", g);
  overlong<int>("over-long int32", g);
  overlong<std::uint64_t>("over-long uint64", g);
  overlong<std::int64_t>("over-long int64", g);
  for (int n : {0, 1, 2, 3, 63, 64, 126, 127, 128, 129, 255, 256, 300, 16383 / 8}) {
    const std::string s = someText(g, n);
    value("string", Str(), s, vt::bytes(s), g, n < 200 ? 30 : 6);
    std::vector<std::uint64_t> v;
    for (int i = 0; i < n && n <= 300; i++) v.push_back(g.next() >> g.in(0, 63));
    value("vector", Vec<std::uint64_t>(), v, words(v), g, n < 10 ? 20 : 5);
    std::vector<int> w;
    for (int i = 0; i < n && n <= 300; i++) w.push_back(int(g.next() >> g.in(0, 63)));
    value("int vector", Vec<int>(), w, words(w), g, n < 10 ? 20 : 5);
    std::vector<std::uint8_t> z;
    for (int i = 0; i < n && n <= 300; i++) z.push_back(std::uint8_t(g.next()));
    value("byte vector", Vec<std::uint8_t>(), z, words(z), g, n < 10 ? 20 : 5);
  }
  const std::string big = someText(g, 16390);
  value("long string", Str(), big, vt::bytes(big), g, 1);
  for (int i = 0; i < (a.thorough ? 1500 : 150); i++) {
    const State s = someState(g);
    value("random state", Rnd(), s.make(), s.j(), g, 6);
    const Rep r = someRep(g);
    value("reproduce", RepC(), r.make(), r.j(), g, 6);
  }
  for (int i = 0; i < (a.thorough ? 200 : 30); i++) {
    const Pairs p = somePairs(g, g.pick(std::vector<int>{0, 1, 2, 3}));
    value("map", MapC(), makeMap(p), pairsJ(p), g, 12);
  }
  {
    const Pairs p = somePairs(g, 140);
    value("big map", MapC(), makeMap(p), pairsJ(p), g, 1);
  }
  // the same key twice, lengths that cannot be
  for (int i = 0; i < 10; i++) {
    Pairs p = somePairs(g, 1);
    Bytes one;
    p[0].second.state.drawn = i;
    const Map m = makeMap(p);
    serialize(*m.begin(), std::back_inserter(one));
    Bytes b{2};
    for (int x = 0; x < g.in(1, 3); x++) b.insert(b.end(), one.begin(), one.end());
    foreign("same key", MapC(), b);
  }
  for (int i = 0; i < (a.thorough ? 600 : 120); i++) {
    const std::uint64_t n = g.pick(std::vector<std::uint64_t>{1, 5, 1ull << 20, 1ull << 31, 1ull << 32, 1ull << 40, 1ull << 62, 1ull << 63, ~0ull, ~0ull - 1, g.next()});
    Bytes b;
    serializeCompact(n, std::back_inserter(b));
    Bytes rest = someBytes(g, g.in(0, 90));
    b.insert(b.end(), rest.begin(), rest.end());
    foreign("lengths", Str(), b);
    foreign("lengths", Vec<std::uint64_t>(), b);
    foreign("lengths", Vec<short>(), b);
    foreign("lengths", MapC(), b);
    Rep r = someRep(g);
    r.path.clear();
    Bytes c;
    serialize(r.make(), std::back_inserter(c));
    c.pop_back();
    c.insert(c.end(), b.begin(), b.end());
    foreign("lengths", RepC(), c);
  }
  for (int i = 0; i < (a.thorough ? 3000 : 300); i++) {
    const Bytes b = someBytes(g, g.in(0, 120));
    foreign("foreign", Str(), b);
    foreign("foreign", Vec<std::uint64_t>(), b);
    foreign("foreign", Rnd(), b);
    foreign("foreign", RepC(), b);
    foreign("foreign", MapC(), b);
    foreign("foreign", Var<int>(), b);
  }
  texts(g, a.thorough);
  return 0;
}
