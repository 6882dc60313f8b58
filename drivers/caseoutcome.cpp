// C05: scripted case bodies through toProperty and a whole check.
#include <rapidcheck.h>
#include "detail/Testing.h"
#include "rapidcheck/detail/PropertyContext.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "vt.h"
#include <algorithm>

using namespace rc;
using namespace rc::detail;

struct Op {
  std::string kind; // report / log / logln / tag / classify / macro / end
  std::string t, s;
  std::vector<std::string> ts;
  bool cond = false;
  std::string thrown = "none";
};

static vt::Trace *T;

struct Base : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Derived : Base {
  using Base::Base;
};
struct Other {};

static CaseResult::Type typeOf(const std::string &t) {
  return t == "S" ? CaseResult::Type::Success : t == "F" ? CaseResult::Type::Failure : CaseResult::Type::Discard;
}
static std::string nameOf(CaseResult::Type t) {
  return t == CaseResult::Type::Success ? "S" : t == CaseResult::Type::Failure ? "F" : "D";
}

static void thrower(const std::string &what) {
  if (what == "exact") throw Base("b");
  if (what == "derived") throw Derived("d");
  if (what == "other") throw Other();
  if (what == "int") throw 7;
  if (what == "std") throw std::logic_error("l");
}

// evaluates a macro and records whether it stopped the body, and with which
// message; rethrows. src: the macro's arguments as written, extra: what the
// message is to say about them
#define AT(call, text) \
  do { \
    src = text; \
    line = __LINE__; \
    call; \
  } while (false)
static void macro(const Op &op) {
  const std::string &m = op.s;
  vt::Obj ev("macro");
  ev("m", m)("cond", op.cond)("thrown", op.thrown);
  std::string src;
  int line = 0;
  auto finish = [&](bool stopped, const std::string &t, const std::string &text) {
    T->ev(ev("src", src)("at", __FILE__ ":" + std::to_string(line))("stopped", stopped)("t", t)("text", text));
  };
  try {
    const bool cond = op.cond;
    const int three = 3;
    const std::string why = op.t;
    if (m == "RC_ASSERT") AT(RC_ASSERT(cond == true), "cond == true");
    else if (m == "RC_ASSERT_FALSE") AT(RC_ASSERT_FALSE(cond), "cond");
    else if (m == "RC_ASSERT_THROWS") AT(RC_ASSERT_THROWS(thrower(op.thrown)), "thrower(op.thrown)");
    else if (m == "RC_ASSERT_THROWS_AS") AT(RC_ASSERT_THROWS_AS(thrower(op.thrown), Base), "thrower(op.thrown), Base");
    else if (m == "RC_FAIL" && why == "-") AT(RC_FAIL(), "");
    else if (m == "RC_FAIL") AT(RC_FAIL(why), "why");
    else if (m == "RC_SUCCEED_IF") AT(RC_SUCCEED_IF(three > (cond ? 2 : 4)), "three > (cond ? 2 : 4)");
    else if (m == "RC_SUCCEED" && why == "-") AT(RC_SUCCEED(), "");
    else if (m == "RC_SUCCEED") AT(RC_SUCCEED(why), "why");
    else if (m == "RC_PRE") AT(RC_PRE(cond), "cond");
    else if (m == "RC_DISCARD" && why == "-") AT(RC_DISCARD(), "");
    else if (m == "RC_DISCARD") AT(RC_DISCARD(why), "why");
  } catch (const CaseResult &r) {
    ev("why", op.t);
    finish(true, nameOf(r.type), r.description);
    throw;
  } catch (...) {
    ev("why", op.t);
    finish(true, "foreign exception", "");
    throw;
  }
  ev("why", op.t);
  finish(false, "", "");
}

// ---- captured expressions: n(i) and b(i) are operands that count how often
// they are evaluated
static std::vector<int> operands;
static std::vector<int> evaluated;
static int n(int i) {
  evaluated.push_back(i);
  return operands[i];
}
static bool b(int i) {
  evaluated.push_back(i);
  return operands[i] != 0;
}
static unsigned long u(int i) {
  evaluated.push_back(i);
  return operands[i];
}

#define BY(expr) \
  do { \
    src = #expr; \
    line = __LINE__; \
    if (m == "RC_ASSERT") RC_ASSERT(expr); \
    else if (m == "RC_ASSERT_FALSE") RC_ASSERT_FALSE(expr); \
    else if (m == "RC_SUCCEED_IF") RC_SUCCEED_IF(expr); \
    else RC_PRE(expr); \
  } while (false)
#define EACH(X) X(*) X(/) X(%) X(+) X(-) X(<<) X(>>) X(<) X(>) X(>=) X(<=) X(==) X(!=) X(&) X(^) X(|) X(&&) X(||)

// e: the operators of the expression in the order in which they are captured,
// from the left; shown: "n" or "b" per operand
static void expression(const Op &op) {
  const std::string &m = op.s;
  const std::string &e = op.t;
  operands.clear();
  for (char c : op.ts[0]) operands.push_back(c - '0');
  evaluated.clear();
  vt::Obj ev("expr");
  std::vector<std::string> ops;
  std::string kinds, src, type, text;
  int line = 0;
  bool stopped = false;
  auto is = [&](const std::string &name, std::vector<std::string> os, const std::string &ks) {
    if (name != e) return false;
    ops = std::move(os);
    kinds = ks;
    return true;
  };
  try {
#define BINARY(op) \
  if (is("n " #op " n", {#op}, "nn")) BY(n(0) op n(1)); \
  if (is("u " #op " u", {#op}, "nn")) BY(u(0) op u(1)); \
  if (is("(n " #op " n) == n", {"=="}, std::is_same<decltype(1 op 1), bool>::value ? "bn" : "nn")) BY((n(0) op n(1)) == n(2)); \
  if (is("n && (n " #op " n)", {"&&"}, std::is_same<decltype(1 op 1), bool>::value ? "nb" : "nn")) BY(n(0) && (n(1) op n(2)));
    EACH(BINARY)
#undef BINARY
    if (is("n", {}, "n")) BY(n(0));
    if (is("b", {}, "b")) BY(b(0));
    if (is("not b", {}, "b")) BY(!b(0));
    if (is("b == b", {"=="}, "bb")) BY(b(0) == b(1));
    if (is("b != b", {"!="}, "bb")) BY(b(0) != b(1));
    if (is("b && b", {"&&"}, "bb")) BY(b(0) && b(1));
    if (is("b || b", {"||"}, "bb")) BY(b(0) || b(1));
    if (is("n + n == n", {"+", "=="}, "nnn")) BY(n(0) + n(1) == n(2));
    if (is("n * n < n", {"*", "<"}, "nnn")) BY(n(0) * n(1) < n(2));
    if (is("n - n + n", {"-", "+"}, "nnn")) BY(n(0) - n(1) + n(2));
    if (is("n < n == b", {"<", "=="}, "nnb")) BY(n(0) < n(1) == b(2));
    if (is("n & n == b", {"&"}, "nb")) BY(n(0) & n(1) == n(2));
    if (is("n << n >> n", {"<<", ">>"}, "nnn")) BY(n(0) << n(1) >> n(2));
    if (is("b && b || b", {"&&", "||"}, "bbb")) BY(b(0) && b(1) || b(2));
    if (is("b || (b && b)", {"||"}, "bb")) BY(b(0) || b(1) && b(2));
    if (is("n == n && b", {"==", "&&"}, "nnb")) BY(n(0) == n(1) && b(2));
    if (is("n % n + n > n", {"%", "+", ">"}, "nnnn")) BY(n(0) % n(1) + n(2) > n(3));
    if (is("n + n + n + n", {"+", "+", "+"}, "nnnn")) BY(n(0) + n(1) + n(2) + n(3));
  } catch (const CaseResult &r) {
    stopped = true;
    type = nameOf(r.type);
    text = r.description;
  }
  std::vector<int> vals = operands;
  // what C++ itself groups before anything is captured
#define GROUPED(op) \
  if (e == "(n " #op " n) == n") vals = {int(operands[0] op operands[1]), operands[2]}; \
  if (e == "n && (n " #op " n)") vals = {operands[0], int(operands[1] op operands[2])};
  EACH(GROUPED)
#undef GROUPED
  if (e == "not b") vals = {operands[0] ? 0 : 1};
  if (e == "n & n == b") vals = {operands[0], operands[1] == operands[2]};
  if (e == "b || (b && b)") vals = {operands[0], operands[1] && operands[2]};
  for (std::size_t i = 0; i < kinds.size(); i++)
    if (kinds[i] == 'b') vals[i] = vals[i] != 0;
  std::vector<std::string> ks;
  for (char c : kinds) ks.push_back(std::string(1, c));
  std::sort(evaluated.begin(), evaluated.end());
  T->ev(ev("m", m)("form", e)("vals", vals)("kinds", ks)("ops", ops)("src", src)("at", __FILE__ ":" + std::to_string(line))(
      "evaluated", evaluated)("operands", int(operands.size()))("stopped", stopped)("t", type)("text", text));
  if (stopped) throw CaseResult(typeOf(type), text);
}

static void perform(const std::vector<Op> &ops) {
  for (const auto &op : ops) {
    if (op.kind == "report") {
      T->ev(vt::Obj("report")("t", op.t)("m", op.s));
      ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(CaseResult(typeOf(op.t), op.s));
    } else if (op.kind == "log") {
      T->ev(vt::Obj("log")("s", op.s));
      RC_LOG() << op.s;
    } else if (op.kind == "logln") {
      T->ev(vt::Obj("log")("s", op.s + "\n"));
      RC_LOG(op.s);
    } else if (op.kind == "tag") {
      std::vector<std::string> ts;
      for (auto &x : op.ts) ts.push_back(toString(x));
      T->ev(vt::Obj("tag")("ts", ts));
      if (op.ts.size() == 1) RC_TAG(op.ts[0]);
      else if (op.ts.size() == 2) RC_TAG(op.ts[0], op.ts[1]);
    } else if (op.kind == "classify") {
      const bool c = op.cond;
      std::vector<std::string> ts;
      if (c) {
        for (auto &x : op.ts) ts.push_back(toString(x));
        if (op.ts.empty()) ts.push_back("c");
      }
      T->ev(vt::Obj("tag")("ts", ts));
      if (op.ts.empty()) RC_CLASSIFY(c);
      else if (op.ts.size() == 1) RC_CLASSIFY(c, op.ts[0]);
      else RC_CLASSIFY(c, op.ts[0], op.ts[1]);
    } else if (op.kind == "nested") {
      // a whole run inside the body: must leave no trace in this case
      const bool was = T->open();
      T->abandon();
      TestParams p;
      p.maxSuccess = 3;
      TestListenerAdapter l;
      testProperty(toProperty([&](int) {
                     RC_LOG() << "inner";
                     RC_TAG(1);
                     if (op.cond) RC_FAIL("inner");
                     ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(
                         CaseResult(CaseResult::Type::Discard, "inner"));
                   }),
                   TestMetadata(), p, l);
      if (was) T->resume();
    } else if (op.kind == "pick") {
      // picks run generators in a scope of their own
      *gen::exec([] {
        RC_LOG() << "";
        return *gen::arbitrary<int>();
      });
    } else if (op.kind == "macro") {
      macro(op);
    } else if (op.kind == "expr") {
      expression(op);
    }
  }
}

static void throwEnd(const Op &e) {
  T->ev(vt::Obj("end")("kind", e.t)("s", e.s));
  if (e.t == "result S") throw CaseResult(CaseResult::Type::Success, e.s);
  if (e.t == "result F") throw CaseResult(CaseResult::Type::Failure, e.s);
  if (e.t == "result D") throw CaseResult(CaseResult::Type::Discard, e.s);
  if (e.t == "generation fails") throw GenerationFailure(e.s);
  if (e.t == "throw exception") {
    if (e.s.size() % 2) throw std::runtime_error(e.s);
    throw std::out_of_range(e.s);
  }
  if (e.t == "throw string") throw e.s;
  if (e.t == "throw other") {
    if (e.s.size() % 2) throw 42;
    throw Other();
  }
}

// an argument type whose generator misbehaves as told
struct Arg {
  int x;
};
static Op *argEnd = nullptr;
static void argThrow() {
  if (argEnd) throwEnd(*argEnd);
}
struct FailingSet {};

namespace rc {
template <>
struct Arbitrary<Arg> {
  static Gen<Arg> arbitrary() {
    return gen::exec([] {
      argThrow();
      return Arg{*gen::arbitrary<int>()};
    });
  }
};
template <>
struct Arbitrary<FailingSet> {
  static Gen<FailingSet> arbitrary() {
    return gen::map(gen::suchThat<int>([](int) { return false; }), [](int) { return FailingSet(); });
  }
};
} // namespace rc

static std::ostream &operator<<(std::ostream &os, const Arg &) { return os << "Arg"; }

static Property makeProperty(const std::vector<Op> &ops, const Op &end, bool viaReturn, int shape) {
  auto body = [=] { perform(ops); };
  if (end.kind == "arg") {
    // the body must never run
    if (shape % 2) return toProperty([=](const Arg &, int) { T->ev(vt::Obj("body ran")); });
    return toProperty([=](int, Arg) {
      T->ev(vt::Obj("body ran"));
      return true;
    });
  }
  if (end.kind == "macro-end") {
    if (shape % 2) return toProperty([=](int, bool) { body(); });
    return toProperty([=] {
      body();
      return std::string();
    });
  }
  const std::string k = end.t;
  auto note = [=] { T->ev(vt::Obj("end")("kind", k)("s", end.s)); };
  if (k == "return void") {
    if (shape % 3 == 0) return toProperty([=] {
      body();
      note();
    });
    if (shape % 3 == 1) return toProperty([=](int) {
      body();
      note();
    });
    return toProperty([=](std::vector<int>, const Arg &) {
      body();
      note();
    });
  }
  if (k == "return true" || k == "return false") {
    const bool v = k == "return true";
    if (shape % 2) return toProperty([=](int, const std::string &) {
      body();
      note();
      return v;
    });
    return toProperty([=] {
      body();
      note();
      return v;
    });
  }
  if (k == "return string") return toProperty([=](bool) {
    body();
    note();
    return end.s;
  });
  if (viaReturn && k.compare(0, 6, "result") == 0) return toProperty([=] {
    body();
    note();
    return CaseResult(typeOf(k.substr(7)), end.s);
  });
  switch (shape % 3) {
  case 0: return toProperty([=] {
    body();
    throwEnd(end);
  });
  case 1: return toProperty([=](int) {
    body();
    throwEnd(end);
    return true;
  });
  default: return toProperty([=](const Arg &) -> std::string {
    body();
    throwEnd(end);
    return "not reached";
  });
  }
}

static std::vector<std::string> tagsOf(const CaseDescription &d) { return d.tags; }

static void run(const std::string &name, const std::vector<Op> &ops, Op end, bool viaReturn, int shape, vt::Rng &rng) {
  T->begin(name, vt::Obj()("shape", shape));
  const auto prop = makeProperty(ops, end, viaReturn, shape);
  argEnd = end.kind == "arg" ? &end : nullptr;
  const Random random(rng.next());
  const int size = rng.in(0, 30);
  try {
    const auto s = prop(random, size);
    const auto d = s.value();
    T->ev(vt::Obj("outcome")("t", nameOf(d.result.type))("desc", d.result.description)("tags", tagsOf(d)));
    T->abandon();
    d.example();
    // evaluating again gives the same outcome: nothing accumulates
    const auto d2 = s.value();
    T->resume();
    T->ev(vt::Obj("outcome")("t", nameOf(d2.result.type))("desc", d2.result.description)("tags", tagsOf(d2)));
    T->abandon();
    TestParams p;
    p.seed = rng.next();
    p.maxSuccess = 1;
    p.maxSize = size;
    p.maxDiscardRatio = 0;
    p.disableShrinking = true;
    TestListenerAdapter l;
    const auto r = testProperty(prop, TestMetadata(), p, l);
    T->resume();
    SuccessResult su;
    FailureResult f;
    GaveUpResult g;
    if (r.match(su)) T->ev(vt::Obj("search")("t", "ok")("n", su.numSuccess)("desc", ""));
    else if (r.match(f)) T->ev(vt::Obj("search")("t", "failed")("n", f.numSuccess)("desc", f.description));
    else if (r.match(g)) T->ev(vt::Obj("search")("t", "gaveup")("n", g.numSuccess)("desc", g.description));
  } catch (...) {
    T->resume();
    T->ev(vt::Obj("escaped exception"));
  }
  argEnd = nullptr;
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng rng(a.seed);
  const std::vector<std::string> ends{"return void", "return true", "return false", "return string", "result S",
                                      "result F", "result D", "generation fails", "throw exception", "throw string",
                                      "throw other"};
  const std::vector<std::string> macros{"RC_ASSERT", "RC_ASSERT_FALSE", "RC_ASSERT_THROWS", "RC_ASSERT_THROWS_AS",
                                        "RC_FAIL", "RC_SUCCEED_IF", "RC_SUCCEED", "RC_PRE", "RC_DISCARD"};
  auto report = [](const std::string &ty, const std::string &s) {
    Op o;
    o.kind = "report";
    o.t = ty;
    o.s = s;
    return o;
  };
  auto endOp = [](const std::string &k, const std::string &s) {
    Op o;
    o.kind = "end";
    o.t = k;
    o.s = s;
    return o;
  };
  auto macroOp = [](const std::string &m, bool c, const std::string &thrown) {
    Op o;
    o.kind = "macro";
    o.s = m;
    o.cond = c;
    o.thrown = thrown;
    o.t = "because";
    return o;
  };
  Op macroEnd;
  macroEnd.kind = "macro-end";
  // every report history of length <= 3 with every ending
  std::vector<std::vector<Op>> hist{{}};
  std::vector<std::vector<Op>> last{{}};
  for (int n = 1; n <= 3; n++) {
    std::vector<std::vector<Op>> next;
    for (auto &h : last)
      for (const char *ty : {"S", "F", "D"}) {
        auto g = h;
        g.push_back(report(ty, std::string("m") + std::to_string(n) + ty));
        next.push_back(g);
      }
    hist.insert(hist.end(), next.begin(), next.end());
    last = next;
  }
  // the same with messages that are empty or look like the separator
  for (const char *m1 : {"", "x", "\n\n"})
    for (const char *m2 : {"", "y", "\n"})
      for (const char *t1 : {"S", "F", "D"})
        for (const char *t2 : {"S", "F", "D"})
          for (const char *m3 : {"", "z"}) hist.push_back({report(t1, m1), report(t2, m2), report("F", m3)});
  int shape = 0;
  for (auto &h : hist)
    for (auto &e : ends)
      for (const char *s : {"", "text"}) {
        shape++;
        if (h.size() == 3 && !a.thorough && !rng.chance(30)) continue;
        run("history", h, endOp(e, s), rng.chance(50), shape, rng);
      }
  // every macro in every situation, alone and after a report
  for (auto &m : macros)
    for (bool c : {false, true})
      for (const char *th : {"none", "exact", "derived", "other", "int", "std"})
        for (const char *pre : {"", "S", "F", "D"}) {
          std::vector<Op> ops;
          if (*pre) ops.push_back(report(pre, "before"));
          ops.push_back(macroOp(m, c, th));
          const bool stops = (m == "RC_ASSERT" && !c) || (m == "RC_ASSERT_FALSE" && c) || m == "RC_FAIL" ||
              m == "RC_SUCCEED" || m == "RC_DISCARD" || (m == "RC_SUCCEED_IF" && c) || (m == "RC_PRE" && !c) ||
              (m == "RC_ASSERT_THROWS" && !std::strcmp(th, "none")) ||
              (m == "RC_ASSERT_THROWS_AS" && std::strcmp(th, "exact") && std::strcmp(th, "derived"));
          run("macro", ops, stops ? macroEnd : endOp(rng.pick(ends), "e"), rng.chance(50), shape++, rng);
        }
  for (const char *m : {"RC_FAIL", "RC_SUCCEED", "RC_DISCARD"})
    for (const char *why : {"-", "", "two\nlines", "50% \"q\""}) {
      Op o = macroOp(m, true, "none");
      o.t = why;
      run("macro", {o}, macroEnd, false, shape++, rng);
    }
  // captured expressions: every operator, groupings, every macro that takes one
  {
    std::vector<std::pair<std::string, int>> forms{
        {"n", 1}, {"b", 1}, {"not b", 1}, {"b == b", 2}, {"b != b", 2}, {"b && b", 2}, {"b || b", 2},
        {"n + n == n", 3}, {"n * n < n", 3}, {"n - n + n", 3}, {"n < n == b", 3}, {"n & n == b", 3},
        {"n << n >> n", 3}, {"b && b || b", 3}, {"b || (b && b)", 3}, {"n == n && b", 3}, {"n % n + n > n", 4},
        {"n + n + n + n", 4}};
    for (const char *o : {"*", "/", "%", "+", "-", "<<", ">>", "<", ">", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "||"}) {
      forms.push_back({std::string("n ") + o + " n", 2});
      forms.push_back({std::string("u ") + o + " u", 2});
      forms.push_back({std::string("(n ") + o + " n) == n", 3});
      forms.push_back({std::string("n && (n ") + o + " n)", 3});
    }
    for (auto &f : forms) {
      int combos = 1;
      for (int k = 0; k < f.second; k++) combos *= 4;
      for (int c = 0; c < combos; c++) {
        if (f.second > 1 && !a.thorough && !rng.chance(f.second == 2 ? 60 : f.second == 3 ? 10 : 3)) continue;
        std::string v;
        for (int k = 0, x = c; k < f.second; k++, x /= 4) v += char('0' + x % 4);
        const bool divides = f.first.find_first_of("/%") != std::string::npos;
        if (divides && v.find('0') != std::string::npos) continue; // undefined
        if (f.first == "u - u" && v[0] < v[1]) continue;            // wraps
        for (const char *m : {"RC_ASSERT", "RC_ASSERT_FALSE", "RC_SUCCEED_IF", "RC_PRE"}) {
          Op o;
          o.kind = "expr";
          o.s = m;
          o.t = f.first;
          o.ts = {v};
          t.begin("expression", vt::Obj()("form", f.first)("v", v));
          T->ev(vt::Obj("tag")("ts", std::vector<std::string>()));
          try {
            expression(o);
            T->ev(vt::Obj("end")("kind", "return void")("s", ""));
          } catch (const CaseResult &) {
          }
          t.end();
        }
      }
    }
  }
  // arguments that cannot be generated
  for (auto &e : ends) {
    if (e.compare(0, 6, "return") == 0) continue;
    for (const char *s : {"", "text", "m"})
      for (int sh = 0; sh < 2; sh++) {
        Op o = endOp(e, s);
        o.kind = "arg";
        run("argument", {}, o, false, sh, rng);
      }
  }
  // random mixtures with logs, tags, picks and nested runs
  for (int i = 0; i < (a.thorough ? 4000 : 900); i++) {
    std::vector<Op> ops;
    const int n = rng.chance(3) ? rng.in(100, 300) : rng.in(0, 10);
    for (int k = 0; k < n; k++) {
      Op o;
      switch (rng.in(0, 7)) {
      case 0:
      case 1: o = report(rng.pick(std::vector<std::string>{"S", "S", "F", "F", "D"}), rng.chance(20) ? "" : "r" + std::to_string(rng.in(0, 99))); break;
      case 2:
        o.kind = rng.chance(50) ? "log" : "logln";
        o.s = rng.pick(std::vector<std::string>{"", "x", "line one", "a\nb", "50%", "tab\t\"q\""});
        break;
      case 3:
        o.kind = "tag";
        for (int j = rng.in(1, 2); j > 0; j--) o.ts.push_back("t" + std::to_string(rng.in(0, 3)));
        break;
      case 4:
        o.kind = "classify";
        o.cond = rng.chance(60);
        for (int j = rng.in(0, 2); j > 0; j--) o.ts.push_back("k" + std::to_string(rng.in(0, 3)));
        break;
      case 5:
        o.kind = "nested";
        o.cond = rng.chance(50);
        break;
      case 6: o.kind = "pick"; break;
      default: {
        // a macro that lets the body go on
        static const std::vector<std::pair<std::string, bool>> pass{
            {"RC_ASSERT", true}, {"RC_ASSERT_FALSE", false}, {"RC_PRE", true}, {"RC_SUCCEED_IF", false}};
        const auto m = rng.pick(pass);
        o = macroOp(m.first, m.second, "none");
      }
      }
      ops.push_back(o);
    }
    run("mixture", ops, endOp(rng.pick(ends), rng.pick(std::vector<std::string>{"", "e", "end text", "e\n"})),
        rng.chance(50), shape++, rng);
  }
  return 0;
}
