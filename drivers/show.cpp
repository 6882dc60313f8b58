// How values and types are shown (property C22).
#include "vt.h"
#include <array>
#include <deque>
#include <forward_list>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <set>
#include <sstream>
#include <stack>
#include <unordered_map>
#include <unordered_set>
#include "rapidcheck/detail/Any.h"
#include "rapidcheck/detail/ShowType.h"

using namespace rc;

static vt::Trace *T;
static vt::J codes(const std::string &s) { return vt::bytes(s); }
static vt::J node(const char *k) { return vt::J(std::string("{\"k\":\"") + k + "\"}"); }
static vt::J node(const char *k, const char *field, const vt::J &x) {
  return vt::J(std::string("{\"k\":\"") + k + "\",\"" + field + "\":" + x.s + "}");
}
static vt::J list(const std::vector<vt::J> &c) {
  std::string s = "[";
  for (auto &x : c) s += (s.size() > 1 ? "," : "") + x.s;
  return vt::J(s + "]");
}

// user types
struct Own { int x; };
void showValue(const Own &o, std::ostream &os) { os << "own<" << o.x << ">"; }
std::ostream &operator<<(std::ostream &os, const Own &) { return os << "wrong"; }
struct Streamed { int x; };
std::ostream &operator<<(std::ostream &os, const Streamed &s) { return os << "streamed<" << s.x << ">"; }
struct Opaque { int x; };
inline bool operator<(const Own &a, const Own &b) { return a.x < b.x; }

// Tr<T>: a random value of T and the tree the specification sees
template <typename T, typename = void>
struct Tr;
template <typename T>
static vt::J tree(const T &x) { return Tr<T>::tree(x); }
template <typename T>
static T make(vt::Rng &g) { return Tr<T>::make(g); }

template <>
struct Tr<bool> {
  static bool make(vt::Rng &g) { return g.chance(50); }
  static vt::J tree(bool b) { return node("bool", "b", vt::js(b)); }
};
template <typename I>
struct Tr<I, typename std::enable_if<std::is_integral<I>::value && !std::is_same<I, bool>::value>::type> {
  static I make(vt::Rng &g) {
    using L = std::numeric_limits<I>;
    return g.chance(10) ? L::min() : g.chance(10) ? L::max() : g.chance(30) ? static_cast<I>(g.in(0, 12)) : static_cast<I>(g.next() >> g.in(0, 63));
  }
  static vt::J tree(I x) {
    const bool neg = x < 0;
    const std::uint64_t m = neg ? std::uint64_t(0) - static_cast<std::uint64_t>(static_cast<std::int64_t>(x)) : static_cast<std::uint64_t>(x);
    return vt::J("{\"k\":\"num\",\"neg\":" + vt::js(neg).s + ",\"m\":" + vt::u64(m).s + "}");
  }
};
template <>
struct Tr<double> {
  static double make(vt::Rng &g) { return g.chance(20) ? g.in(0, 9) : static_cast<double>(g.in(-1000000, 1000000)) / g.in(1, 1000); }
  static vt::J tree(double x) {
    std::ostringstream os;
    os << x;
    return node("raw", "s", codes(os.str()));
  }
};
template <typename C>
struct Tr<std::basic_string<C>> {
  using S = std::basic_string<C>;
  static S make(vt::Rng &g) {
    S s;
    const int n = g.chance(20) ? 0 : g.chance(5) ? g.in(20, 300) : g.in(1, 8);
    static const std::string odd = std::string(1, '\0') + std::string("\1\7\b\f\n\r\t\v \\\"'?x0123456789abcfnrtvABCF,()[]{}\x7f\x80\xff\x1f");
    for (int i = 0; i < n; i++) s.push_back(g.chance(70) ? static_cast<C>(odd[g.below(odd.size())]) : static_cast<C>(g.next()));
    return s;
  }
  static vt::J tree(const S &s) {
    std::vector<vt::J> c;
    for (C x : s) c.push_back(Tr<C>::tree(x));
    return node("wide", "c", list(c));
  }
};
template <>
vt::J Tr<std::string>::tree(const std::string &s) { return node("str", "s", codes(s)); }
template <>
struct Tr<Own> {
  static Own make(vt::Rng &g) { return Own{g.in(0, 99)}; }
  static vt::J tree(const Own &o) { return node("raw", "s", codes("own<" + std::to_string(o.x) + ">")); }
};
template <>
struct Tr<Streamed> {
  static Streamed make(vt::Rng &g) { return Streamed{g.in(0, 99)}; }
  static vt::J tree(const Streamed &o) { return node("raw", "s", codes("streamed<" + std::to_string(o.x) + ">")); }
};
template <>
struct Tr<Opaque> {
  static Opaque make(vt::Rng &g) { return Opaque{g.in(0, 99)}; }
  static vt::J tree(const Opaque &) { return node("un"); }
};
static int someLen(vt::Rng &g) { return g.chance(20) ? 0 : g.chance(3) ? g.in(10, 60) : g.in(1, 3); }
template <typename C>
static vt::J parts(const char *k, const C &c) {
  std::vector<vt::J> v;
  for (const auto &x : c) v.push_back(Tr<typename C::value_type>::tree(x));
  return node(k, "c", list(v));
}
template <typename C>
static C filled(vt::Rng &g) {
  C c;
  for (int i = someLen(g); i > 0; i--) c.insert(c.end(), make<typename C::value_type>(g));
  return c;
}
#define CONTAINER(TMPL, ARGS, K)                                   \
  template <TMPL>                                                  \
  struct Tr<ARGS> {                                                \
    static ARGS make(vt::Rng &g) { return filled<ARGS>(g); }       \
    static vt::J tree(const ARGS &c) { return parts(K, c); }       \
  };
#define A1(X) X
#define A2(X, Y) X, Y
CONTAINER(typename E, std::vector<E>, "list")
CONTAINER(typename E, std::deque<E>, "list")
CONTAINER(typename E, std::list<E>, "list")
CONTAINER(typename E, std::set<E>, "set")
CONTAINER(typename E, std::multiset<E>, "set")
CONTAINER(typename E, std::unordered_set<E>, "set")
CONTAINER(typename E, std::unordered_multiset<E>, "set")
template <typename E>
struct Tr<std::forward_list<E>> {
  static std::forward_list<E> make(vt::Rng &g) {
    std::forward_list<E> c;
    for (int i = someLen(g); i > 0; i--) c.push_front(::make<E>(g));
    return c;
  }
  static vt::J tree(const std::forward_list<E> &c) { return parts("list", c); }
};
template <typename E, std::size_t N>
struct Tr<std::array<E, N>> {
  static std::array<E, N> make(vt::Rng &g) {
    std::array<E, N> c;
    for (auto &x : c) x = ::make<E>(g);
    return c;
  }
  static vt::J tree(const std::array<E, N> &c) { return parts("list", c); }
};
template <typename A, typename B>
struct Tr<std::pair<A, B>> {
  static std::pair<A, B> make(vt::Rng &g) {
    auto a = ::make<typename std::remove_const<A>::type>(g);
    return std::pair<A, B>(std::move(a), ::make<B>(g));
  }
  static vt::J tree(const std::pair<A, B> &p) { return node("tup", "c", list({Tr<typename std::remove_const<A>::type>::tree(p.first), ::tree(p.second)})); }
};
template <typename M>
struct MapTr {
  static M make(vt::Rng &g) {
    M m;
    for (int i = someLen(g); i > 0; i--) {
      auto k = ::make<typename M::key_type>(g);
      m.insert(typename M::value_type(k, ::make<typename M::mapped_type>(g)));
    }
    return m;
  }
  static vt::J tree(const M &m) { return parts("set", m); }
};
template <typename A, typename B>
struct Tr<std::map<A, B>> : MapTr<std::map<A, B>> {};
template <typename A, typename B>
struct Tr<std::multimap<A, B>> : MapTr<std::multimap<A, B>> {};
template <typename A, typename B>
struct Tr<std::unordered_map<A, B>> : MapTr<std::unordered_map<A, B>> {};
template <typename A, typename B>
struct Tr<std::unordered_multimap<A, B>> : MapTr<std::unordered_multimap<A, B>> {};
template <>
struct Tr<std::tuple<>> {
  static std::tuple<> make(vt::Rng &) { return std::tuple<>(); }
  static vt::J tree(const std::tuple<> &) { return node("tup", "c", list({})); }
};
template <typename... Ts>
struct Tr<std::tuple<Ts...>> {
  static std::tuple<Ts...> make(vt::Rng &g) { return std::tuple<Ts...>(::make<Ts>(g)...); }
  template <std::size_t I>
  static typename std::enable_if<I == sizeof...(Ts)>::type each(const std::tuple<Ts...> &, std::vector<vt::J> &) {}
  template <std::size_t I>
  static typename std::enable_if<(I < sizeof...(Ts))>::type each(const std::tuple<Ts...> &t, std::vector<vt::J> &c) {
    c.push_back(::tree(std::get<I>(t)));
    each<I + 1>(t, c);
  }
  static vt::J tree(const std::tuple<Ts...> &t) {
    std::vector<vt::J> c;
    each<0>(t, c);
    return node("tup", "c", list(c));
  }
};
template <typename E>
struct Tr<Maybe<E>> {
  static Maybe<E> make(vt::Rng &g) { return g.chance(30) ? Maybe<E>() : Maybe<E>(::make<E>(g)); }
  static vt::J tree(const Maybe<E> &m) { return m ? node("just", "v", ::tree(*m)) : node("nothing"); }
};
template <typename E>
static vt::J pointed(const E *p) {
  return p ? vt::J("{\"k\":\"ptr\",\"v\":" + tree(*p).s + ",\"a\":" + vt::u64(reinterpret_cast<std::uintptr_t>(p)).s + "}") : node("null");
}
template <typename E>
struct Tr<std::shared_ptr<E>> {
  static std::shared_ptr<E> make(vt::Rng &g) { return g.chance(20) ? std::shared_ptr<E>() : std::make_shared<E>(::make<E>(g)); }
  static vt::J tree(const std::shared_ptr<E> &p) { return pointed(p.get()); }
};
template <typename E>
struct Tr<std::unique_ptr<E>> {
  static std::unique_ptr<E> make(vt::Rng &g) { return std::unique_ptr<E>(g.chance(20) ? nullptr : new E(::make<E>(g))); }
  static vt::J tree(const std::unique_ptr<E> &p) { return pointed(p.get()); }
};
// raw pointers into a pool that lives long enough
template <typename E>
struct Tr<E *> {
  static E *make(vt::Rng &g) {
    static std::deque<E> pool;
    if (g.chance(20)) return nullptr;
    if (pool.size() > 50) pool.clear();
    pool.push_back(::make<E>(g));
    return &pool.back();
  }
  static vt::J tree(E *p) { return pointed(p); }
};
template <typename E>
struct Tr<Seq<E>> {
  static Seq<E> make(vt::Rng &g) {
    const int n = g.chance(5) ? g.in(995, 1005) : someLen(g);
    std::vector<E> v;
    for (int i = 0; i < n; i++) v.push_back(::make<E>(g));
    return seq::fromContainer(std::move(v));
  }
  static vt::J tree(Seq<E> s) {
    std::vector<vt::J> c;
    bool more = false;
    while (auto x = s.next()) {
      if (c.size() == 1000) {
        more = true;
        break;
      }
      c.push_back(::tree(*x));
    }
    return node(more ? "many" : "list", "c", list(c));
  }
};

static bool sameFormat(const std::ostream &a, std::ios::fmtflags f, std::streamsize p, char fill) { return a.flags() == f && a.precision() == p && a.fill() == fill && a.width() == 0; }

template <typename V>
static void showOne(const V &v, vt::Rng &g) {
  std::ostringstream os;
  const auto f = os.flags();
  const auto p = os.precision();
  const auto c = os.fill();
  show(v, os);
  bool same = sameFormat(os, f, p, c);
  // a stream somebody has changed keeps its formatting too
  std::ostringstream odd;
  if (g.chance(50)) odd << std::hex;
  if (g.chance(30)) odd << std::showbase;
  if (g.chance(30)) odd << std::uppercase;
  if (g.chance(30)) odd << std::fixed;
  if (g.chance(30)) odd << std::boolalpha;
  if (g.chance(30)) odd << std::left;
  if (g.chance(50)) odd << std::setprecision(g.in(0, 12));
  if (g.chance(50)) odd << std::setfill('#');
  const auto f2 = odd.flags();
  const auto p2 = odd.precision();
  const auto c2 = odd.fill();
  show(v, odd);
  same = same && sameFormat(odd, f2, p2, c2);
  // the same text by the other way
  same = same && toString(v) == os.str();
  T->ev(vt::Obj("show")("v", tree(v))("text", codes(os.str()))("fmt", same));
}
template <typename V>
static void some(vt::Rng &g) {
  for (int i = 0; i < 2; i++) {
    const V v = make<V>(g);
    showOne<V>(v, g);
  }
}

template <typename V>
static void named(const std::string &t) { T->ev(vt::Obj("type")("t", vt::J(t))("text", detail::typeToString<V>())); }
static std::string nm(const std::string &s) { return "{\"k\":\"name\",\"s\":\"" + s + "\"}"; }
static std::string of(const std::string &s, const std::vector<std::string> &c) {
  std::string o = "{\"k\":\"of\",\"s\":\"" + s + "\",\"c\":[";
  for (std::size_t i = 0; i < c.size(); i++) o += (i ? "," : "") + c[i];
  return o + "]}";
}
static std::string pre(const std::string &s, const std::string &t) { return "{\"k\":\"pre\",\"s\":\"" + s + "\",\"t\":" + t + "}"; }
static std::string ref(const std::string &s, const std::string &t) { return "{\"k\":\"ref\",\"s\":\"" + s + "\",\"t\":" + t + "}"; }
static std::string ptr(const std::string &t) { return "{\"k\":\"ptr\",\"t\":" + t + "}"; }

// two levels of templates around a type
template <typename V>
static void around(const std::string &t) {
  named<V>(t);
  named<const V>(pre("const", t));
  named<volatile V>(pre("volatile", t));
  named<const volatile V>(pre("const volatile", t));
  named<V &>(ref("&", t));
  named<V &&>(ref("&&", t));
  named<const V &>(ref("&", pre("const", t)));
  named<V *>(ptr(t));
  named<const V *>(ptr(pre("const", t)));
  named<V **>(ptr(ptr(t)));
  named<std::vector<V>>(of("std::vector", {t}));
  named<std::deque<V>>(of("std::deque", {t}));
  named<std::forward_list<V>>(of("std::forward_list", {t}));
  named<std::list<V>>(of("std::list", {t}));
  named<std::set<V>>(of("std::set", {t}));
  named<std::multiset<V>>(of("std::multiset", {t}));
  named<std::unordered_set<V>>(of("std::unordered_set", {t}));
  named<std::unordered_multiset<V>>(of("std::unordered_multiset", {t}));
  named<std::map<V, int>>(of("std::map", {t, nm("int")}));
  named<std::map<bool, V>>(of("std::map", {nm("bool"), t}));
  named<std::multimap<V, char>>(of("std::multimap", {t, nm("char")}));
  named<std::unordered_map<V, char>>(of("std::unordered_map", {t, nm("char")}));
  named<std::unordered_multimap<int, V>>(of("std::unordered_multimap", {nm("int"), t}));
  named<std::array<V, 12>>(of("std::array", {t, nm("12")}));
  named<std::stack<V>>(of("std::stack", {t}));
  named<std::pair<V, bool>>(of("std::pair", {t, nm("bool")}));
  named<std::tuple<V>>(of("std::tuple", {t}));
  named<std::tuple<int, V, V, bool>>(of("std::tuple", {nm("int"), t, t, nm("bool")}));
  named<std::unique_ptr<V>>(of("std::unique_ptr", {t}));
  named<std::shared_ptr<V>>(of("std::shared_ptr", {t}));
  named<std::shared_ptr<const std::vector<V *>>>(of("std::shared_ptr", {pre("const", of("std::vector", {ptr(t)}))}));
}

struct Model {};
struct Sut {};
struct Cmd : state::Command<Model, Sut> {
  std::string text;
  explicit Cmd(std::string s)
      : text(std::move(s)) {}
  void show(std::ostream &os) const override { os << text; }
};

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng g(a.seed);
  // every character, and every pair with what could be mistaken for a part of an escape
  for (int i = 0; i < 256; i += 16) {
    T->begin("characters", vt::Obj());
    for (int c = i; c < i + 16; c++) {
      showOne(std::string(1, static_cast<char>(c)), g);
      for (char d : std::string("\\\"nx0aF1 \xff")) showOne(std::string(1, static_cast<char>(c)) + d, g);
    }
    T->end();
  }
  using S = std::string;
  for (int i = 0; i < (a.thorough ? 400 : 40); i++) {
    T->begin("scalars", vt::Obj());
    some<bool>(g), some<char>(g), some<signed char>(g), some<unsigned char>(g), some<short>(g), some<unsigned short>(g), some<int>(g), some<unsigned>(g);
    some<long>(g), some<unsigned long>(g), some<long long>(g), some<unsigned long long>(g), some<double>(g), some<Own>(g), some<Streamed>(g), some<Opaque>(g);
    for (int k = 0; k < 4; k++) some<S>(g);
    some<std::wstring>(g), some<std::u16string>(g), some<std::u32string>(g);
    const S s = make<S>(g);
    const S cut = s.substr(0, s.find('\0'));
    const char *cs = s.c_str();
    std::ostringstream os;
    show(cs, os);
    T->ev(vt::Obj("show")("v", tree(cut))("text", codes(os.str()))("fmt", true));
    T->ev(vt::Obj("show")("v", node("null"))("text", codes(toString(static_cast<const char *>(nullptr))))("fmt", true));
    T->end();
    T->begin("containers", vt::Obj());
    some<std::vector<int>>(g), some<std::vector<S>>(g), some<std::vector<bool>>(g), some<std::deque<signed char>>(g), some<std::list<double>>(g);
    some<std::forward_list<S>>(g), some<std::set<S>>(g), some<std::multiset<int>>(g), some<std::unordered_set<S>>(g), some<std::unordered_multiset<int>>(g);
    some<std::map<S, int>>(g), some<std::multimap<int, S>>(g), some<std::unordered_map<int, bool>>(g), some<std::unordered_multimap<S, S>>(g);
    some<std::array<S, 3>>(g), some<std::array<bool, 1>>(g), some<std::array<int, 0>>(g), some<std::pair<S, int>>(g), some<std::tuple<>>(g);
    some<std::tuple<int>>(g), some<std::tuple<S, double, bool>>(g), some<std::tuple<char, S, int, Own, Opaque>>(g), some<Maybe<S>>(g), some<Maybe<int>>(g);
    some<std::vector<Own>>(g), some<std::vector<Streamed>>(g), some<std::vector<Opaque>>(g), some<Seq<int>>(g), some<Seq<S>>(g);
    some<std::vector<char>>(g), some<std::vector<unsigned char>>(g), some<std::vector<signed char>>(g);
    T->end();
    T->begin("pointers", vt::Obj());
    some<std::shared_ptr<int>>(g), some<std::shared_ptr<S>>(g), some<std::unique_ptr<S>>(g), some<std::unique_ptr<char>>(g), some<int *>(g), some<S *>(g);
    some<char *>(g), some<std::unique_ptr<signed char>>(g), some<std::shared_ptr<Opaque>>(g), some<std::vector<std::shared_ptr<double>>>(g), some<std::tuple<std::shared_ptr<S>, double>>(g);
    some<std::pair<int *, int>>(g), some<std::shared_ptr<std::vector<S>>>(g), some<std::shared_ptr<std::shared_ptr<int>>>(g), some<std::unique_ptr<unsigned char>>(g);
    T->end();
    T->begin("nested", vt::Obj());
    some<std::vector<std::vector<int>>>(g), some<std::vector<std::vector<std::vector<S>>>>(g), some<std::map<S, std::vector<Maybe<int>>>>(g);
    some<std::map<int, std::map<S, bool>>>(g), some<std::set<std::set<int>>>(g), some<std::vector<std::tuple<S, std::pair<int, Maybe<S>>>>>(g);
    some<std::tuple<std::tuple<>, std::tuple<std::tuple<int>>, std::vector<std::tuple<>>>>(g), some<Maybe<std::vector<Maybe<S>>>>(g);
    some<std::array<std::vector<S>, 2>>(g), some<std::list<std::set<std::pair<S, double>>>>(g), some<Seq<std::vector<int>>>(g), some<std::vector<std::wstring>>(g);
    some<std::map<std::vector<int>, std::pair<S, std::list<bool>>>>(g), some<std::vector<std::shared_ptr<std::vector<std::pair<S, int>>>>>(g), some<std::set<std::wstring>>(g);
    T->end();
    T->begin("commands", vt::Obj());
    {
      state::Commands<state::Command<Model, Sut>> cmds;
      std::vector<vt::J> c;
      for (int k = g.in(0, 4); k > 0; k--) {
        const S text = "command " + std::to_string(g.in(0, 99));
        cmds.push_back(std::make_shared<const Cmd>(text));
        c.push_back(node("raw", "s", codes(text)));
      }
      T->ev(vt::Obj("show")("v", node("lines", "c", list(c)))("text", codes(toString(cmds)))("fmt", true));
      // values of any type keep their text
      const auto v = make<std::vector<S>>(g);
      std::ostringstream os;
      detail::Any::of(v).showValue(os);
      T->ev(vt::Obj("show")("v", tree(v))("text", codes(os.str()))("fmt", true));
    }
    T->end();
  }
  T->begin("types", vt::Obj());
  around<int>(nm("int")), around<bool>(nm("bool")), around<S>(nm("std::string"));
  around<std::wstring>(nm("std::wstring")), around<std::u16string>(nm("std::u16string")), around<std::u32string>(nm("std::u32string"));
  around<std::vector<int>>(of("std::vector", {nm("int")}));
  around<std::map<S, std::pair<int, bool>>>(of("std::map", {nm("std::string"), of("std::pair", {nm("int"), nm("bool")})}));
  around<std::shared_ptr<double>>(of("std::shared_ptr", {nm("double")}));
  around<std::tuple<>>(of("std::tuple", {}));
  around<Own>(nm("Own"));
  T->end();
  return 0;
}
