// C01/C02: scripted outcome histories through the real search loop.
#include <rapidcheck.h>
#include "detail/Testing.h"
#include "rapidcheck/Check.h"
#include "vt.h"
#include <climits>

using namespace rc;
using namespace rc::detail;

static std::string outName(CaseResult::Type t) {
  switch (t) {
  case CaseResult::Type::Success: return "S";
  case CaseResult::Type::Failure: return "F";
  case CaseResult::Type::Discard: return "D";
  }
  return "?";
}

struct Listener : public TestListener {
  vt::Trace *t = nullptr;
  void onTestCaseFinished(const CaseDescription &d) override {
    t->ev(vt::Obj("fin")("out", outName(d.result.type))("desc", d.result.description));
  }
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

struct Script {
  TestParams p;
  std::string outs; // outcomes of the first cases
  char rest;        // outcome of all later cases
};

static vt::Obj cfgOf(const Script &s) {
  return vt::Obj()("par", vt::Obj()("ms", s.p.maxSuccess)("sz", s.p.maxSize)("ratio", s.p.maxDiscardRatio));
}

static void logResult(vt::Trace &t, const TestResult &r, const Random *failRnd) {
  SuccessResult s;
  FailureResult f;
  GaveUpResult g;
  if (r.match(s)) {
    t.ev(vt::Obj("res")("type", "ok")("n", s.numSuccess));
  } else if (r.match(f)) {
    t.ev(vt::Obj("res")("type", "failed")("n", f.numSuccess)("desc", f.description)("size", f.reproduce.size)(
        "rnd", !failRnd || f.reproduce.random == *failRnd));
  } else if (r.match(g)) {
    t.ev(vt::Obj("res")("type", "gaveup")("n", g.numSuccess)("desc", g.description));
  } else {
    t.ev(vt::Obj("res")("type", "error")("n", -1)("desc", ""));
  }
}

// The property is a hand made generator of case descriptions.
static void runProp(vt::Trace &t, const std::string &name, const Script &s) {
  t.begin(name, cfgOf(s));
  int k = 0;
  Random lastRandom;
  Property prop = Gen<CaseDescription>([&](const Random &random, int size) {
    const int i = k++;
    lastRandom = random;
    const char c = i < (int)s.outs.size() ? s.outs[i] : s.rest;
    t.ev(vt::Obj("gen")("size", size));
    CaseDescription d;
    d.result.type = c == 'S' ? CaseResult::Type::Success
                             : c == 'F' ? CaseResult::Type::Failure : CaseResult::Type::Discard;
    d.result.description = std::string(1, c) + std::to_string(i);
    d.example = [] { return Example(); };
    return shrinkable::just(d);
  });
  Listener l;
  l.t = &t;
  try {
    const auto r = testProperty(prop, TestMetadata(), s.p, l);
    logResult(t, r, &lastRandom);
  } catch (const std::exception &e) {
    t.ev(vt::Obj("res")("type", std::string("exception ") + e.what()));
  }
  t.end();
}

// The property is an ordinary function; outcomes come about in different ways.
static void runFunction(vt::Trace &t, const std::string &name, const Script &s, int style) {
  t.begin(name, cfgOf(s));
  int k = -1; // index of the current case
  Property inner = toProperty([&]() {
    const char c = k < (int)s.outs.size() ? s.outs[k] : s.rest;
    switch (c) {
    case 'S':
      if (style % 3 == 0) RC_SUCCEED("s");
      if (style % 3 == 1) RC_SUCCEED_IF(true);
      break;
    case 'F':
      if (style % 3 == 0) RC_FAIL("f");
      if (style % 3 == 1) RC_ASSERT(k < -1);
      throw std::runtime_error("x");
    default:
      if (style % 3 == 0) RC_DISCARD("d");
      if (style % 3 == 1) RC_PRE(k < -1);
      throw GenerationFailure("g");
    }
  });
  Random lastRandom;
  Property prop = Gen<CaseDescription>([&](const Random &random, int size) {
    k++;
    lastRandom = random;
    t.ev(vt::Obj("gen")("size", size));
    return inner(random, size);
  });
  Listener l;
  l.t = &t;
  try {
    const auto r = checkProperty(prop, TestMetadata(), s.p, l, {});
    logResult(t, r, &lastRandom);
  } catch (const std::exception &e) {
    t.ev(vt::Obj("res")("type", std::string("exception ") + e.what()));
  }
  t.end();
}

// all outcome histories for small parameters
static void enumerate(vt::Trace &t, Script s, int nS, int nD, vt::Rng &rng, int keepPct) {
  const bool stop = (!s.outs.empty() && s.outs.back() == 'F') || nS >= s.p.maxSuccess ||
      nD > s.p.maxDiscardRatio * s.p.maxSuccess;
  if (stop) {
    if (rng.chance(keepPct)) {
      s.rest = 'F'; // a case too many shows
      s.p.seed = rng.next();
      runProp(t, "enum", s);
    }
    return;
  }
  for (char c : {'S', 'D', 'F'}) {
    Script n = s;
    n.outs += c;
    enumerate(t, n, nS + (c == 'S'), nD + (c == 'D'), rng, keepPct);
  }
}

// Long runs: consecutive cases with the same outcome are recorded together,
// each with the size it was generated at.
struct LongRun : public TestListener {
  vt::Trace &t;
  std::vector<int> sizes; // cases complete so far, all with the same outcome
  std::string out, desc;
  int open = 0, size = -1; // a case generated and not yet finished
  explicit LongRun(vt::Trace &tr)
      : t(tr) {}
  void gen(int sz) {
    if (open) {
      flush();
      t.ev(vt::Obj("gen")("size", size));
    }
    open = 1;
    size = sz;
  }
  void onTestCaseFinished(const CaseDescription &d) override {
    const std::string o = outName(d.result.type);
    if (!open || o != out || sizes.size() >= 2000) flush();
    if (!open || o == "F") {
      if (open) t.ev(vt::Obj("gen")("size", size));
      open = 0;
      t.ev(vt::Obj("fin")("out", o)("desc", d.result.description));
      return;
    }
    out = o;
    desc = d.result.description;
    sizes.push_back(size);
    open = 0;
  }
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
  void flush() {
    if (!sizes.empty()) t.ev(vt::Obj("many")("out", out)("sizes", sizes)("desc", desc));
    sizes.clear();
  }
};

// `runs` gives the outcomes, run length encoded; whatever follows is a failure
static void runLong(vt::Trace &t, const std::string &name, Script s, const std::vector<std::pair<char, int>> &runs) {
  t.begin(name, cfgOf(s));
  std::size_t at = 0;
  int left = runs.empty() ? 0 : runs[0].second;
  LongRun l(t);
  Random lastRandom;
  int k = 0;
  Property prop = Gen<CaseDescription>([&](const Random &random, int size) {
    while (at < runs.size() && left == 0)
      if (++at < runs.size()) left = runs[at].second;
    char c = 'F';
    if (at < runs.size()) {
      c = runs[at].first;
      left--;
    }
    lastRandom = random;
    l.gen(size);
    CaseDescription d;
    d.result.type = c == 'S' ? CaseResult::Type::Success
                             : c == 'F' ? CaseResult::Type::Failure : CaseResult::Type::Discard;
    d.result.description = std::string(1, c) + std::to_string(k++);
    d.example = [] { return Example(); };
    return shrinkable::just(d);
  });
  try {
    const auto r = testProperty(prop, TestMetadata(), s.p, l);
    l.flush();
    logResult(t, r, &lastRandom);
  } catch (const std::exception &e) {
    l.flush();
    t.ev(vt::Obj("res")("type", std::string("exception ") + e.what()));
  }
  t.end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  vt::Rng rng(a.seed);
  auto mk = [&](int ms, int sz, int ratio) {
    Script s;
    s.p.seed = rng.next();
    s.p.maxSuccess = ms;
    s.p.maxSize = sz;
    s.p.maxDiscardRatio = ratio;
    s.rest = 'S';
    return s;
  };

  for (int ms = 0; ms <= 3; ms++)
    for (int ratio = 0; ratio <= 2; ratio++)
      for (int sz : {0, 1, 2, 5}) {
        const int keep = a.thorough ? 100 : (ms == 3 && ratio == 2 ? 8 : ms == 2 && ratio == 2 ? 40 : 100);
        enumerate(t, mk(ms, sz, ratio), 0, 0, rng, keep);
      }

  // the pure size schedule for every small (max_success, max_size)
  for (int ms = 1; ms <= (a.thorough ? 60 : 26); ms++)
    for (int sz = 0; sz <= (a.thorough ? 40 : 16); sz++) runProp(t, "schedule", mk(ms, sz, 10));
  for (int ms : {99, 100, 101, 102, 200, 201, 202, 203, 250, 301, 303, 500, 1000})
    for (int sz : {0, 1, 3, 9, 99, 100, 101, 150, 1000}) runProp(t, "schedule", mk(ms, sz, 10));

  // bursts of discards (growth and reset), random histories
  for (int n = 0; n < (a.thorough ? 600 : 120); n++) {
    Script s = mk(rng.in(1, 40), rng.in(0, 60), rng.in(1, 20));
    const int bursts = rng.in(1, 6);
    for (int b = 0; b < bursts; b++) {
      s.outs += std::string(rng.in(0, 4), 'S');
      s.outs += std::string(rng.pick(std::vector<int>{1, 5, 9, 10, 11, 19, 20, 21, 35}), 'D');
    }
    s.rest = rng.chance(60) ? 'S' : rng.chance(50) ? 'D' : 'F';
    if (rng.chance(50)) runProp(t, "burst", s);
    else runFunction(t, "burst-fn", s, rng.in(0, 2));
  }
  for (int n = 0; n < (a.thorough ? 800 : 200); n++) {
    Script s = mk(rng.in(0, 30), rng.in(0, 30), rng.in(0, 4));
    const int len = rng.in(0, 60), pD = rng.in(0, 95), pF = rng.in(0, 4);
    for (int i = 0; i < len; i++) s.outs += rng.chance(pF) ? 'F' : rng.chance(pD) ? 'D' : 'S';
    s.rest = rng.pick(std::vector<char>{'S', 'S', 'D', 'F'});
    if (rng.chance(50)) runProp(t, "random", s);
    else runFunction(t, "random-fn", s, rng.in(0, 2));
  }
  // default parameters, giving up and not quite giving up
  for (int style = 0; style < 3; style++) {
    Script s = mk(100, 100, 10);
    s.rest = 'D';
    runFunction(t, "give-up", s, style);
    s.outs = std::string(99, 'S') + std::string(1000, 'D');
    s.rest = 'S';
    runFunction(t, "limit", s, style);
    s.outs += 'D';
    runFunction(t, "beyond-limit", s, style);
  }
  // extreme parameters: the run stops early, so only the arithmetic is extreme
  for (int ms : {1000, 100000, 1 << 24, 1 << 30, INT_MAX - 1, INT_MAX})
    for (int sz : {0, 1, 100, 65535, 65536, 1 << 24, 100000000, 1 << 30, INT_MAX - 1, INT_MAX})
      for (int ratio : {0, 1, 10, 1000, 1 << 20, INT_MAX}) {
        if (!a.thorough && rng.chance(50)) continue;
        Script s = mk(ms, sz, ratio);
        const int len = rng.in(0, 30);
        for (int i = 0; i < len; i++) s.outs += rng.chance(60) ? 'S' : 'D';
        s.rest = 'F';
        runProp(t, "extreme", s);
      }
  for (int ms : {2, 3, 5, 7, 10, 31, 60})
    for (int sz : {65535, 65536, 1 << 24, 100000000, 1 << 30, INT_MAX - 1, INT_MAX}) {
      Script s = mk(ms, sz, INT_MAX);
      if (rng.chance(50)) s.outs = std::string(ms - 1, 'S') + std::string(rng.in(9, 31), 'D');
      runProp(t, "wide-schedule", s);
    }
  // more cases than 8 or 16 bits can count
  const int big = a.thorough ? 140000 : 66000;
  runLong(t, "long", mk(300, 100, 10), {{'S', 300}});
  runLong(t, "long", mk(big, 100, 10), {{'S', big}});
  runLong(t, "long", mk(big, big - rng.in(2, 500), 10), {{'S', big}});
  runLong(t, "long", mk(big, rng.in(0, 30), 1), {{'S', big - 200}});
  runLong(t, "long", mk(100, 100, big / 100), {{'D', big / 100 * 100 + 1}});
  runLong(t, "long", mk(100, 100, big / 100), {{'S', 50}, {'D', big / 100 * 100}, {'S', 50}});
  runLong(t, "long", mk(1, 100, big), {{'D', big}, {'S', 1}});
  runLong(t, "long", mk(1, 0, big), {{'D', big + 1}});
  runLong(t, "long", mk(big / 2, 100, 2), {{'S', big / 4}, {'D', big - 1000}, {'S', 5}, {'D', 990}, {'S', big / 2}});
  {
    std::vector<std::pair<char, int>> runs;
    int d = 0, c = 0;
    while (d < big) {
      const int n = rng.in(1, 3000), m = rng.in(1, 300);
      runs.emplace_back('D', n);
      runs.emplace_back('S', m);
      d += n;
      c += m;
    }
    runs.emplace_back('D', 1 + rng.in(0, 100));
    runLong(t, "long-mixed", mk(c + 1, rng.in(0, 200), rng.pick(std::vector<int>{3, 10, 1000})), runs);
    runs.emplace_back('S', 1);
    runLong(t, "long-mixed", mk(c + 1, rng.in(0, 200), 100000), runs);
  }
  return 0;
}
