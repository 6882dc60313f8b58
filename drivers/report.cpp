// What runs report: distribution, counts, messages (property C18).
#include "vt.h"
#include <functional>
#include <rapidcheck.h>
#include "detail/Testing.h"
#include "rapidcheck/Check.h"
#include <climits>
#include <iostream>
#include <sstream>

using namespace rc;
using namespace rc::detail;

static vt::Trace *T;

// shows as exactly its text
struct Raw {
  std::string s;
};
static std::ostream &operator<<(std::ostream &os, const Raw &r) { return os << r.s; }

struct Plan {
  char out;              // outcome ...
  char low = 'S';        // ... of a failing plan if the picked values are small
  int limit = 0;         // F if the sum of the picks is at least this
  std::string desc;
  std::vector<int> tags; // numbers of tags
  std::vector<std::string> names; // of the picks; empty: unnamed
  bool nested = false;
  bool log = false;
};
struct Seen {
  std::string out, desc;
  std::vector<std::string> tags;
  Example ex;
};
static Seen last;
static void emit(const char *e, const Seen &s) { T->ev(vt::Obj(e)("out", s.out)("desc", s.desc)("tags", s.tags)("ex", s.ex)); }

static void addTag(int n, std::vector<std::string> &seen) {
  switch (n) {
  case 0: RC_TAG(Raw{"plain"}); seen.push_back("plain"); break;
  case 1: RC_TAG(Raw{"one"}, Raw{"two"}); seen.push_back("one"); seen.push_back("two"); break;
  case 2: RC_TAG(17); seen.push_back("17"); break;
  case 3: RC_CLASSIFY(n > 2); seen.push_back("n > 2"); break;
  case 4: RC_CLASSIFY(n > 2, Raw{"big"}); seen.push_back("big"); break;
  case 5: RC_CLASSIFY(n > 9, Raw{"never"}); break;
  case 6: RC_CLASSIFY(n < 2); break;
  case 7: RC_TAG(Raw{""}); seen.push_back(""); break;
  case 8: RC_TAG(Raw{"one, two"}); seen.push_back("one, two"); break;
  case 9: RC_TAG(Raw{"50.00% - x"}, true); seen.push_back("50.00% - x"); seen.push_back("true"); break;
  case 10: RC_CLASSIFY(n == 10, Raw{"a"}, 2, Raw{"b"}); seen.push_back("a"); seen.push_back("2"); seen.push_back("b"); break;
  default: RC_TAG(Raw{"tag " + std::to_string(n)}); seen.push_back("tag " + std::to_string(n));
  }
}
static const int TAGS = 14;

struct Quiet : TestListener {
  void onTestCaseFinished(const CaseDescription &) override {}
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};
struct Observer : TestListener {
  void onTestCaseFinished(const CaseDescription &) override { emit("case", last); }
  void onShrinkTried(const CaseDescription &, bool) override { emit("try", last); }
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

static std::vector<Random> announced;
static bool fresh; // a case started that is not announced yet (without observer)

// What a property does: a function of the random state only.
static std::function<std::string()> body(const std::vector<Plan> &plans, bool announce) {
  return [&plans, announce]() -> std::string {
    const auto number = Gen<int>([&](const Random &r, int) {
      // evaluating a case again makes the same values
      fresh = announced.empty() || announced.back() != r;
      announced.assign(1, r);
      Random x(r);
      return shrinkable::just(int(x.next() % plans.size()));
    });
    const Plan &p = plans[*number.as("plan")];
    Seen s;
    s.ex.emplace_back("plan", std::to_string(&p - plans.data()));
    int sum = 0;
    std::vector<int> vs;
    for (auto &n : p.names) {
      int v;
      if (n.empty()) {
        v = *gen::inRange(0, 20);
        s.ex.emplace_back("int", std::to_string(v));
      } else {
        v = *gen::inRange(0, 20).as(n);
        s.ex.emplace_back(n, std::to_string(v));
      }
      sum += v;
      vs.push_back(v);
    }
    for (int t : p.tags) addTag(t, s.tags);
    if (p.nested) {
      // another run inside of this one
      TestParams q;
      q.seed = 3;
      q.maxSuccess = 3;
      Quiet l;
      const auto r = checkTestable([](int a) { RC_TAG(Raw{"inner"}); RC_LOG() << "inner log"; return a == a; }, TestMetadata(), q, l, std::unordered_map<std::string, Reproduce>());
      if (!r.is<SuccessResult>() || r.get<SuccessResult>().distribution != Distribution{{{"inner"}, 3}}) throw std::runtime_error("inner run");
    }
    char o = p.out;
    if (o == 'F' && sum < p.limit) o = p.low;
    s.out = std::string(1, o);
    s.desc = p.desc + " " + s.out;
    std::string log;
    if (p.log) {
      RC_LOG() << "logged " << sum;
      log = "\n\nLog:\nlogged " + std::to_string(sum);
    }
    const std::string plain = s.desc;
    s.desc += log;
    last = s;
    if (announce && fresh) emit("case", s);
    fresh = false;
    if (o == 'S') return "";
    if (o == 'D') throw CaseResult(CaseResult::Type::Discard, plain);
    return plain;
  };
}

static std::vector<std::string> linesOf(const std::string &text) {
  std::vector<std::string> r;
  std::size_t p = text.find('\n');
  while (p != std::string::npos) {
    const auto q = text.find('\n', p + 1);
    if (q == std::string::npos) break;
    r.push_back(text.substr(p + 1, q - p - 1));
    p = q;
  }
  return r;
}
static vt::J distJ(const Distribution &d) {
  std::string s = "[";
  for (auto &x : d) s += (s.size() > 1 ? ",[" : "[") + vt::js(x.first).s + "," + std::to_string(x.second) + "]";
  return vt::J(s + "]");
}
static std::string typeOf(const TestResult &r) {
  return r.is<SuccessResult>() ? "ok" : r.is<FailureResult>() ? "failed" : r.is<GaveUpResult>() ? "gaveup" : "error";
}
static void result(const char *e, const TestResult &r, const std::string *text) {
  vt::Obj o(e);
  o("type", typeOf(r));
  SuccessResult s;
  FailureResult f;
  GaveUpResult g;
  Error x;
  if (r.match(s)) o("n", s.numSuccess)("dist", distJ(s.distribution))("k", 0)("desc", "")("ex", vt::J("[]"));
  else if (r.match(f)) o("n", f.numSuccess)("dist", vt::J("[]"))("k", int(f.reproduce.shrinkPath.size()))("desc", f.description)("ex", f.counterExample);
  else if (r.match(g)) o("n", g.numSuccess)("dist", vt::J("[]"))("k", 0)("desc", g.description)("ex", vt::J("[]"));
  else if (r.match(x)) o("n", 0)("dist", vt::J("[]"))("k", 0)("desc", x.description)("ex", vt::J("[]"));
  if (text) o("text", *text)("lines", linesOf(*text));
  T->ev(o);
}
// messages of one scenario go to one stream
struct Printer {
  std::ostringstream os;
  std::size_t at = 0;
  std::string next() {
    const auto s = os.str().substr(at);
    at = os.str().size();
    return s;
  }
};

static std::vector<Plan> somePlans(vt::Rng &g, bool fails, bool gives) {
  std::vector<Plan> v;
  const int n = g.in(1, 7), pool = g.in(1, TAGS);
  for (int i = 0; i < n; i++) {
    Plan p;
    p.out = fails && g.chance(25) ? 'F' : g.chance(gives ? 85 : 20) ? 'D' : 'S';
    if (p.out == 'F' && g.chance(70)) {
      p.limit = g.in(1, 30);
      p.low = g.chance(70) ? 'S' : 'D';
    }
    p.desc = g.pick(std::vector<std::string>{"it", "", "several\nlines\n\nof it", "Falsifiable after 3 tests", "x:\ny"});
    for (int k = g.pick(std::vector<int>{0, 1, 1, 1, 2, 3}); k > 0; k--) p.tags.push_back(g.below(pool));
    for (int k = g.in(0, 3); k > 0; k--) p.names.push_back(g.pick(std::vector<std::string>{"", "x", "a name", "x"}));
    p.nested = g.chance(8);
    // messages of successes are not reported, and the log belongs to the description
    p.log = g.chance(15);
    v.push_back(p);
  }
  return v;
}

static void runs(vt::Rng &g, bool thorough, bool large = false) {
  const bool fails = !large && g.chance(40), gives = g.chance(20);
  T->begin("runs", vt::Obj());
  Printer out;
  const int n = large ? 1 : g.in(1, 3);
  std::vector<Plan> plans = somePlans(g, fails, gives);
  if (large) {
    // many cases, many combinations, many tags in one case
    plans.assign(1 + g.pick(std::vector<int>{1, 3, 250}), Plan());
    for (std::size_t i = 0; i < plans.size(); i++) {
      plans[i].out = i == 0 ? 'D' : 'S';
      for (int k = i == 1 ? 150 : g.in(0, 2); k >= 0; k--) plans[i].tags.push_back(int(i) + TAGS + k);
    }
  }
  for (int i = 0; i < n; i++) {
    if (!large && g.chance(50)) plans = somePlans(g, fails, gives);
    TestParams p;
    p.seed = g.next();
    p.maxSuccess = g.pick(std::vector<int>{0, 1, 2, 3, 7, 20, 40, thorough ? 300 : 60});
    if (large) p.maxSuccess = g.pick(std::vector<int>{1100, 2600, thorough ? 20000 : 4200});
    p.maxSize = g.in(0, 100);
    p.maxDiscardRatio = g.in(0, 3);
    p.disableShrinking = g.chance(20);
    Observer l;
    T->ev(vt::Obj("run"));
    const Property prop = toProperty(body(plans, false));
    TestMetadata m;
    m.id = "some property";
    const auto r = testProperty(prop, m, p, l);
    result("res", r, nullptr);
    printResultMessage(r, out.os);
    const auto text = out.next();
    T->ev(vt::Obj("text")("type", typeOf(r))("text", text)("lines", linesOf(text)));
    if (r.is<FailureResult>()) {
      // the same failure, reproduced
      Quiet q;
      const auto again = checkProperty(prop, m, p, q, {{"some property", r.get<FailureResult>().reproduce}});
      printResultMessage(again, out.os);
      T->ev(vt::Obj("repro")("text", out.next()));
    }
  }
  T->end();
}

// tens of thousands of cases of few combinations
static void longRun(vt::Rng &g, bool thorough) {
  T->begin("long", vt::Obj());
  struct Part {
    Seen s;
    int n;
  };
  std::vector<Part> parts;
  int total = 0, discards = 0;
  const int want = thorough ? 200000 : 68000;
  while (total < want) {
    Part p;
    p.s.out = g.chance(25) ? "D" : "S";
    p.s.desc = p.s.out == "S" ? "" : "not this one";
    for (int k = g.pick(std::vector<int>{0, 1, 1, 1, 2}); k > 0; k--)
      p.s.tags.push_back(g.pick(std::vector<std::string>{"a", "a", "a", "b", ""}));
    p.n = g.chance(40) ? g.in(1, 3) : g.in(1, want);
    if (parts.empty()) p.s.out = "S", p.s.desc = "", p.s.tags = {"a"}, p.n = 65600;
    (p.s.out == "S" ? total : discards) += p.n;
    parts.push_back(p);
  }
  const bool gives = g.chance(30);
  TestParams p;
  p.seed = g.next();
  p.maxSuccess = total + (gives ? 1 : 0);
  p.maxDiscardRatio = discards / p.maxSuccess + 1;
  if (gives) {
    Part q;
    q.s.out = "D";
    q.s.desc = "at last";
    q.n = p.maxDiscardRatio * p.maxSuccess - discards + 1;
    parts.push_back(q);
  }
  std::size_t at = 0;
  int done = 0, again = 0;
  const Property prop = toProperty([&]() -> std::string {
    while (at < parts.size() && done == parts[at].n) at++, done = 0;
    // the case that was given up on is evaluated once more
    if (at == parts.size() && (!gives || again++)) return "a case too many";
    const Seen &s = at == parts.size() ? parts.back().s : parts[at].s;
    done++;
    for (const auto &x : s.tags) RC_TAG(Raw{x});
    if (s.out == "D") throw CaseResult(CaseResult::Type::Discard, s.desc);
    return "";
  });
  T->ev(vt::Obj("run"));
  Quiet l;
  const auto r = testProperty(prop, TestMetadata(), p, l);
  for (std::size_t i = 0; i <= at && i < parts.size(); i++) {
    const Seen &s = parts[i].s;
    const int k = i < at ? parts[i].n : done;
    if (k) T->ev(vt::Obj("cases")("k", k)("out", s.out)("desc", s.desc)("tags", s.tags)("ex", s.ex));
  }
  result("res", r, nullptr);
  Printer out;
  printResultMessage(r, out.os);
  const auto text = out.next();
  T->ev(vt::Obj("text")("type", typeOf(r))("text", text)("lines", linesOf(text)));
  T->end();
}

// through rc::check, as a user sees it
static void checks(vt::Rng &g) {
  const bool fails = g.chance(40), gives = g.chance(20);
  T->begin("check", vt::Obj());
  std::vector<Plan> plans = somePlans(g, fails, gives);
  for (auto &p : plans) p.names.clear(), p.limit = 0; // nothing to shrink
  for (int i = 0; i < 2; i++) {
    const bool named = g.chance(50);
    announced.clear();
    std::ostringstream err;
    T->ev(vt::Obj("run"));
    auto *old = std::cerr.rdbuf(err.rdbuf());
    const bool ok = named ? rc::check("a property", body(plans, true)) : rc::check(body(plans, true));
    std::cerr.rdbuf(old);
    std::string s = err.str();
    const std::string head = named ? "\n- a property\n" : "";
    const bool frame = s.substr(0, head.size()) == head && s.size() > head.size() && s.back() == '\n';
    s = frame ? s.substr(head.size(), s.size() - 1 - head.size()) : "?" + s;
    const char *type = ok ? "ok" : s.compare(0, 5, "Gave ") == 0 ? "gaveup" : "failed";
    // the verdict is what was returned; counts are in the text
    T->ev(vt::Obj("over")("type", type));
    T->ev(vt::Obj("text")("type", type)("text", s)("lines", linesOf(s)));
  }
  T->end();
}

static void prints(vt::Rng &g) {
  T->begin("print", vt::Obj());
  Printer out;
  for (int i = 0; i < 6; i++) {
    TestResult r = Error("what went wrong");
    switch (g.in(0, 5)) {
    case 0:
    case 1: {
      SuccessResult s;
      const int mode = g.in(0, 4);
      s.numSuccess = mode == 0 ? g.in(1, 12) : mode == 1 ? g.in(1, 400) : mode == 2 ? g.pick(std::vector<int>{8, 16, 32, 64, 160, 200, 320, 400, 800, 1600, 2000, 3200, 16000, 20000}) : mode == 3 ? 100 : g.in(1, INT_MAX);
      int rest = s.numSuccess;
      for (int k = g.in(0, 9); k > 0 && rest > 0; k--) {
        Tags t;
        for (int j = g.in(1, 3); j > 0; j--) t.push_back(g.pick(std::vector<std::string>{"a", "b", "a, b", "", "c d", "\"q\""}));
        if (s.distribution.count(t)) continue;
        const int c = g.chance(30) ? g.in(1, rest) : std::min(rest, g.in(1, 5));
        s.distribution[t] = c;
        rest -= c;
      }
      r = s;
      break;
    }
    case 2:
    case 3: {
      FailureResult f;
      f.numSuccess = g.chance(70) ? g.in(0, 200) : g.in(0, INT_MAX - 1);
      f.description = g.pick(std::vector<std::string>{"", "d", "l1\nl2"});
      f.reproduce.size = 3;
      f.reproduce.shrinkPath.resize(g.pick(std::vector<int>{0, 1, 2, 3, 10, 100}));
      for (int k = g.in(0, 5); k > 0; k--)
        f.counterExample.emplace_back(g.pick(std::vector<std::string>{"x", "", "std::vector<int>", "x"}), g.pick(std::vector<std::string>{"1", "", "[1, 2]", "two\nlines"}));
      r = f;
      break;
    }
    case 4: {
      GaveUpResult u;
      u.numSuccess = g.chance(70) ? g.in(0, 200) : g.in(0, INT_MAX);
      u.description = g.pick(std::vector<std::string>{"", "d", "l1\nl2"});
      r = u;
      break;
    }
    default: break;
    }
    printResultMessage(r, out.os);
    const auto text = out.next();
    result("print", r, &text);
  }
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  configuration();
  vt::Rng g(a.seed);
  for (int i = 0; i < (a.thorough ? 1500 : 220); i++) runs(g, a.thorough);
  for (int i = 0; i < (a.thorough ? 12 : 4); i++) runs(g, a.thorough, true);
  for (int i = 0; i < (a.thorough ? 8 : 3); i++) longRun(g, a.thorough);
  for (int i = 0; i < (a.thorough ? 150 : 30); i++) checks(g);
  for (int i = 0; i < (a.thorough ? 3000 : 400); i++) prints(g);
  return 0;
}
