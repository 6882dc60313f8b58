// C03: descents through very wide and very deep trees (combs), recorded run
// length encoded.
#include <rapidcheck.h>
#include "detail/Testing.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "rapidcheck/shrinkable/Operations.h"
#include "vt.h"

using namespace rc;
using namespace rc::detail;

namespace {

using Widths = std::vector<int>;

struct Where {
  int level, pos; // pos < 0: the failing case of the level itself
};

// records stretches of rejected and accepted shrinks
struct Recorder : public TestListenerAdapter {
  vt::Trace &t;
  const Widths &w;
  int level = 0, pos = 0; // the shrink expected next
  int n = 0;
  bool acc = false, open = false, started = false;
  Where cur{0, 0};
  Recorder(vt::Trace &tr, const Widths &ws)
      : t(tr)
      , w(ws) {}
  void flush() {
    if (n) t.ev(vt::Obj(acc ? "acc" : "rej")("n", n));
    n = 0;
  }
  void odd(const char *what, Where x) {
    flush();
    t.ev(vt::Obj("odd")("what", what)("level", x.level)("pos", x.pos));
  }
  // a case of the comb is run
  void run(Where x) {
    if (!started) {
      started = true;
      if (x.level == 0 && x.pos < 0) t.ev(vt::Obj("orig"));
      else odd("original", x);
      return;
    }
    if (open) odd("not reported", cur);
    if (x.pos < 0 && x.level == level) { // the best case once more
      flush();
      t.ev(vt::Obj("min"));
      return;
    }
    const bool next = x.pos < 0 ? (x.level == level + 1 && pos == w[level]) : (x.level == level && x.pos == pos);
    if (!next) odd("run", x);
    cur = x;
    open = true;
  }
  // the case that was run last has been judged
  void judged(Where x, bool accepted) {
    if (!open || x.level != cur.level || x.pos != cur.pos) odd("report", x);
    open = false;
    // stretches: rejected ones anywhere, accepted ones at the first position
    if (n && (accepted != acc || n >= 1 << 20)) flush();
    acc = accepted;
    n++;
    if (accepted) {
      level++;
      pos = 0;
    } else {
      pos++;
    }
  }
  void onShrinkTried(const CaseDescription &d, bool accepted) override {
    Where x{0, 0};
    std::sscanf(d.result.description.c_str(), "%d:%d", &x.level, &x.pos);
    judged(x, accepted);
  }
};

std::string nameOf(Where x) { return std::to_string(x.level) + ":" + std::to_string(x.pos); }

CaseDescription caseOf(Where x, const Widths &w) {
  CaseDescription d;
  d.result.type = x.pos < 0 || x.pos > w[x.level] ? CaseResult::Type::Failure
                                                  : x.pos % 2 ? CaseResult::Type::Discard : CaseResult::Type::Success;
  d.result.description = nameOf(x);
  d.example = [=] { return Example{{"at", nameOf(x)}}; };
  return d;
}

// combs of anything; style picks how the list of shrinks is put together
template <typename T>
Shrinkable<T> comb(Where x, std::shared_ptr<const Widths> w, std::function<T(Where)> value, int style) {
  std::function<Shrinkable<T>(Where)> make = [=](Where y) { return comb<T>(y, w, value, style); };
  return shrinkable::lambda([=] { return value(x); },
                            [=]() -> Seq<Shrinkable<T>> {
                              if (x.pos >= 0) return Seq<Shrinkable<T>>();
                              const int n = (*w)[x.level];
                              const bool last = x.level + 1 == (int)w->size();
                              const int lv = x.level;
                              if (style == 0)
                                return seq::concat(
                                    seq::map(seq::range<int>(0, n), [=](int i) { return make(Where{lv, i}); }),
                                    last ? Seq<Shrinkable<T>>()
                                         : seq::concat(seq::just(make(Where{lv + 1, -1})),
                                                       seq::just(make(Where{lv, n + 1}))));
                              return seq::takeWhile(
                                  seq::map(seq::range<int>(0, last ? n : n + 2),
                                           [=](int i) { return make(i == n ? Where{lv + 1, -1} : Where{lv, i}); }),
                                  [](const Shrinkable<T> &) { return true; });
                            });
}

int levelOf(const Example &e) {
  if (e.size() != 1) return -2;
  Where x{-2, -2};
  std::sscanf(e[0].second.c_str(), "%d:%d", &x.level, &x.pos);
  return x.pos < 0 ? x.level : -3;
}

void full(vt::Trace &t, const std::string &name, const Widths &w, int style) {
  t.begin(name, vt::Obj()("w", w));
  Recorder rec(t, w);
  const auto shared = std::make_shared<const Widths>(w);
  bool quiet = false;
  Property prop = Gen<CaseDescription>([&](const Random &, int) {
    return comb<CaseDescription>(Where{0, -1}, shared,
                                 [&](Where x) {
                                   if (!quiet) rec.run(x);
                                   return caseOf(x, w);
                                 },
                                 style);
  });
  const auto r = testProperty(prop, TestMetadata(), TestParams(), rec);
  rec.flush();
  FailureResult f;
  if (r.match(f)) {
    t.ev(vt::Obj("res")("path", f.reproduce.shrinkPath)("at", levelOf(f.counterExample)));
    // and back again
    quiet = true;
    const auto again = reproduceProperty(prop, f.reproduce);
    FailureResult g;
    if (again.match(g))
      t.ev(vt::Obj("repr")("path", g.reproduce.shrinkPath)("at", levelOf(g.counterExample)));
    else
      t.ev(vt::Obj("repr-other"));
    // part of the way
    const auto root = comb<int>(Where{0, -1}, shared, [](Where x) { return x.pos < 0 ? x.level : -3; }, style);
    for (std::size_t n : {std::size_t(0), f.reproduce.shrinkPath.size() / 2, f.reproduce.shrinkPath.size()}) {
      const std::vector<std::size_t> p(f.reproduce.shrinkPath.begin(), f.reproduce.shrinkPath.begin() + n);
      const auto s = shrinkable::walkPath(root, p);
      t.ev(vt::Obj("walk")("path", p)("n", n)("at", s ? s->value() : -1));
    }
  } else {
    t.ev(vt::Obj("res-other"));
  }
  t.end();
}

void localMin(vt::Trace &t, const std::string &name, const Widths &w, int style) {
  t.begin(name, vt::Obj()("w", w));
  Recorder rec(t, w);
  struct V {
    int level, pos;
  };
  const auto r = shrinkable::findLocalMin(comb<V>(Where{0, -1}, std::make_shared<const Widths>(w),
                                                  [&](Where x) {
                                                    rec.run(x);
                                                    return V{x.level, x.pos};
                                                  },
                                                  style),
                                          [&](const V &v) {
                                            const bool fails = v.pos < 0 || v.pos > w[v.level];
                                            rec.judged(Where{v.level, v.pos}, fails);
                                            return fails;
                                          });
  rec.flush();
  t.ev(vt::Obj("lmin")("n", r.second)("at", r.first.pos < 0 ? r.first.level : -3));
  t.end();
}

} // namespace

void longShrinks(const vt::Args &a) {
  vt::Trace t(a.dir, "long", 1);
  vt::Rng rng(a.seed * 31 + 7);
  std::vector<Widths> all{{0},
                          {3},
                          {2, 1},
                          {70000},
                          {66000, 0},
                          {65535, 65536, 65537, 255, 256, 257, 2},
                          {1, 66500, 3},
                          {140000, 1}};
  all.push_back(Widths(2000, 0));
  all.push_back(Widths(3001, 1));
  for (int i = 0; i < (a.thorough ? 40 : 6); i++) {
    Widths w;
    for (int d = rng.in(1, 12); d >= 0; d--) w.push_back(rng.chance(70) ? rng.in(0, 5) : rng.in(200, a.thorough ? 90000 : 20000));
    all.push_back(w);
    Widths v;
    for (int d = rng.in(200, 1500); d >= 0; d--) v.push_back(rng.chance(80) ? 0 : rng.in(0, 9));
    all.push_back(v);
  }
  if (a.thorough) all.push_back(Widths(12000, 0));
  for (const auto &w : all) {
    full(t, "long", w, rng.in(0, 1));
    localMin(t, "long", w, rng.in(0, 1));
  }
}
