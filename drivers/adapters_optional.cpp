#include "adapters.h"
#include <boost/optional.hpp>
#include <rapidcheck/boost.h>

// optional values of Boost against those of the library, given as [] or [x]
template <typename O>
static vt::J optJ(const O &o) {
  return o ? vt::J("[" + std::to_string(*o) + "]") : vt::J("[]");
}
template <typename O>
static void walk(const rc::Shrinkable<O> &s, vt::Rng g, int depth, std::vector<vt::J> &out) {
  std::vector<vt::J> v{optJ(s.value())};
  std::vector<rc::Shrinkable<O>> kids;
  auto seq = vt::reader(s.shrinks());
  for (auto k = seq.next(); k; k = seq.next()) {
    v.push_back(optJ(k->value()));
    kids.push_back(*k);
  }
  out.push_back(vt::js(v));
  if (!kids.empty() && depth > 0) walk(kids[std::size_t(g.below(kids.size()))], g, depth - 1, out);
}
void ad::optionals(vt::Rng &g) {
  using BO = boost::optional<int>;
  T->begin("optional", vt::Obj()("fw", "none")("ms", 0)("ratio", 0)("shrink", true)("how", ""));
  for (int i = 0; i < 8; i++) {
    const rc::Random r(g.next());
    const int size = g.pick(std::vector<int>{0, 1, 5, 50, 100, 200});
    const bool arb = g.chance(50);
    const auto inner = rc::gen::inRange(-50, 60);
    std::vector<vt::J> a, b;
    const vt::Rng way(g.next());
    walk((arb ? rc::gen::arbitrary<BO>() : rc::gen::boost::optional(inner))(r, size), way, 4, a);
    walk((arb ? rc::gen::arbitrary<rc::Maybe<int>>() : rc::gen::maybe(inner))(r, size), way, 4, b);
    T->ev(vt::Obj("optional")("boost", a)("maybe", b));
    const int x = g.in(-1000, 1000);
    T->ev(vt::Obj("shown")("some", rc::toString(BO(x)))("x", std::to_string(x))("none", rc::toString(BO()))(
        "nested", rc::toString(std::vector<BO>{BO(x), BO()}))("str", rc::toString(boost::optional<std::string>("a"))));
  }
  T->end();
}
