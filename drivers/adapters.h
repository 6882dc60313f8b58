// Shared by the parts of the adapters driver (property C23). Every framework runs
// in a process of its own, which appends its events to a file, one per line.
#pragma once
#include "vt.h"
#include <iostream>
#include <memory>
#include <rapidcheck.h>
#include <sstream>
#include <tuple>

// Which plan a case follows; not shrunk.
struct Which {
  unsigned long long r;
};
inline std::ostream &operator<<(std::ostream &os, const Which &w) { return os << "plan " << w.r; }
namespace rc {
template <>
struct Arbitrary<Which> {
  static Gen<Which> arbitrary() {
    return [](const Random &r, int) {
      Random x(r);
      return shrinkable::just(Which{x.next() % 1000});
    };
  }
};
} // namespace rc

namespace ad {

struct Plan {
  char out;
  std::string desc;
  std::string tag;
  int limit; // F only from this value on
};
extern std::uint64_t seed;
extern FILE *events;
// Google Mock: who was there before its listener
inline std::string how() { return seed % 3 == 0 ? "installed" : seed % 3 == 1 ? "before" : "nobody"; }

inline void ev(const vt::Obj &o) {
  std::fprintf(events, "%s\n", o.j().s.c_str());
  std::fflush(events);
}
// what a test does: a function of the seed and its name
inline std::vector<Plan> plans(const std::string &test) {
  std::uint64_t h = seed;
  for (unsigned char c : test) h = h * 1099511628211ULL + c;
  vt::Rng g(h);
  const bool fails = g.chance(40), gives = g.chance(20), tags = g.chance(40);
  std::vector<Plan> v;
  for (int n = g.in(1, 5); n > 0; n--) {
    Plan p;
    p.out = fails && g.chance(40) ? 'F' : g.chance(gives ? 85 : 10) ? 'D' : 'S';
    p.desc = g.pick(std::vector<std::string>{"it", "", "l1\nl2", "[  PASSED  ]", "OK, passed 3 tests"});
    p.tag = tags ? g.pick(std::vector<std::string>{"a", "b", "", "a b"}) : "";
    p.limit = g.chance(50) ? 0 : g.in(1, 20);
    v.push_back(p);
  }
  return v;
}
extern std::string exName, showsAs; // of the arguments of the body
// the body of every property; live: number of its fixture, 0: none
inline void body(const std::string &test, const Which &w, long long x, const std::string &type, int live) {
  const auto ps = plans(test);
  const Plan &p = ps[std::size_t(w.r % ps.size())];
  char o = p.out;
  if (o == 'F' && std::llabs(x) < p.limit) o = 'S';
  std::vector<std::string> tags;
  if (!p.tag.empty()) {
    rc::detail::ImplicitParam<rc::detail::param::CurrentPropertyContext>::value()->addTag(p.tag);
    tags.push_back(p.tag);
  }
  std::ostringstream args;
  args << "(" << w << ", " << x << ")";
  vt::Obj b("body");
  b("test", test)("live", live)("out", std::string(1, o))("desc", p.desc)("tags", tags)(
      "ex", vt::J("[[" + vt::js("std::tuple<Which, " + type + ">").s + "," + vt::js(args.str()).s + "]]"));
  ev(b);
  if (o == 'F') throw rc::detail::CaseResult(rc::detail::CaseResult::Type::Failure, p.desc);
  if (o == 'D') throw rc::detail::CaseResult(rc::detail::CaseResult::Type::Discard, p.desc);
}

// what is printed while a test runs
struct Cout {
  std::ostringstream os;
  std::streambuf *old;
  Cout() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Cout() { std::cout.rdbuf(old); }
};
extern std::unique_ptr<Cout> cout_;
extern std::vector<std::string> parts; // failures reported to the framework
inline void start(const std::string &test, const char *kind, const std::string &id, const std::string &desc) {
  parts.clear();
  cout_.reset(new Cout);
  ev(vt::Obj("start")("test", test)("kind", kind)("id", id)("desc", desc));
}
inline void finish(const std::string &test, bool pass) {
  const std::string s = cout_ ? cout_->os.str() : "";
  cout_.reset();
  std::vector<std::string> lines;
  std::istringstream in(s);
  for (std::string x; std::getline(in, x);) lines.push_back(x);
  ev(vt::Obj("end")("test", test)("pass", pass)("parts", parts)("printed", s)("lines", lines));
}
extern int fixtures; // made so far in this process
inline void fix(const char *what, int id) { ev(vt::Obj("fix")("what", what)("id", id)); }

extern vt::Trace *T;
void optionals(vt::Rng &g);
int runGTest();
int runGMock();
int runBoost();
int runCatch(const char *test);
int runDoctest();

} // namespace ad
