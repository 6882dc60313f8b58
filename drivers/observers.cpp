// Who is told what during runs; progress marks; the summary of failures (property C19).
#include "vt.h"
#include <functional>
#include <rapidcheck.h>
#include "detail/DefaultTestListener.h"
#include "detail/MulticastTestListener.h"
#include "detail/StringSerialization.h"
#include "detail/Testing.h"
#include "rapidcheck/Check.h"
#include <sstream>

using namespace rc;
using namespace rc::detail;

static vt::Trace *T;
static bool mute;
// the hook a debugger can stop at (the linker takes this one)
namespace rc {
void beforeMinimalTestCase() {
  if (T && !mute) T->ev(vt::Obj("minimal"));
}
}

static std::string outName(CaseResult::Type t) {
  return t == CaseResult::Type::Success ? "S" : t == CaseResult::Type::Failure ? "F" : t == CaseResult::Type::Discard ? "D" : "?";
}
static std::string describe(const CaseResult &r, const Tags &tags, const Example &ex) {
  std::string s = r.description + "|";
  for (auto &t : tags) s += t + ",";
  s += "|";
  for (auto &x : ex) s += x.first + "=" + x.second + ",";
  return s;
}
static vt::J pathJ(const std::vector<std::size_t> &p) {
  std::string s = "[";
  for (auto x : p) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return vt::J(s + "]");
}
static void resultTo(vt::Obj &o, const TestResult &r) {
  SuccessResult s;
  FailureResult f;
  GaveUpResult g;
  if (r.match(s)) o("r", "ok")("n", s.numSuccess)("path", vt::J("[]"));
  else if (r.match(f)) o("r", "failed")("n", f.numSuccess)("path", pathJ(f.reproduce.shrinkPath));
  else if (r.match(g)) o("r", "gaveup")("n", g.numSuccess)("path", vt::J("[]"));
  else o("r", "error")("n", -1)("path", vt::J("[]"));
}
static TestMetadata theMeta;
static int run;

struct Recorder : TestListener {
  int who;
  std::vector<std::pair<int, CaseDescription>> kept; // announcements kept for later
  int told = 0;
  explicit Recorder(int w) : who(w) {}
  void onTestCaseFinished(const CaseDescription &d) override {
    keep(d);
    T->ev(vt::Obj("told")("who", who)("t", "case")("d", describe(d.result, d.tags, d.example()))("out", outName(d.result.type)));
  }
  void onShrinkTried(const CaseDescription &d, bool acc) override {
    keep(d);
    T->ev(vt::Obj("told")("who", who)("t", "try")("d", describe(d.result, d.tags, d.example()))("acc", acc));
  }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    vt::Obj o("told");
    o("who", who)("t", "end")("id", m.id)("run", run)("meta", m == theMeta);
    resultTo(o, r);
    T->ev(o);
    done = true;
  }
  bool done = false;
  void keep(const CaseDescription &d) {
    if (done) {
      told = 0;
      kept.clear();
      done = false;
    }
    told++;
    if (who > 0 && (told * 7 + who) % 5 == 0) kept.emplace_back(told, d);
  }
  // what was announced is still there when the run is over
  void look() {
    for (auto &x : kept) {
      const std::string d = describe(x.second.result, x.second.tags, x.second.example());
      T->ev(vt::Obj("late")("who", who)("i", x.first)("d", d));
    }
    kept.clear();
  }
};
static std::vector<Recorder *> recorders;

struct Style {
  int nPlans = 2;
  int failPct = 0, discardPct = 0;
  int picks = 1, limit = 5, lowDiscards = 0;
  bool tags = false;
};
static std::ostringstream *progress;
static std::size_t progressAt;

static std::string theBody(const Style &st, vt::Rng &g) {
  // what a case does is a function of the random state of the case only
  const auto number = Gen<std::uint64_t>([](const Random &r, int) {
    Random x(r);
    return shrinkable::just(x.next() >> 20);
  });
  if (!mute && g.chance(5)) T->ev(vt::Obj("out")("text", progress->str().substr(progressAt)));
  const std::uint64_t no = *number.as("case");
  vt::Rng own(no);
  Example ex;
  ex.emplace_back("case", std::to_string(no));
  int sum = 0;
  for (int i = 0; i < st.picks; i++) {
    const int v = *gen::inRange(0, 12).as("v");
    ex.emplace_back("v", std::to_string(v));
    sum += v;
  }
  Tags tags;
  if (st.tags) {
    RC_TAG(sum % 3);
    tags.push_back(std::to_string(sum % 3));
  }
  char o = own.chance(st.failPct) ? 'F' : own.chance(st.discardPct) ? 'D' : 'S';
  if (o == 'F' && sum < st.limit) o = own.chance(st.lowDiscards) ? 'D' : 'S';
  CaseResult r(o == 'S' ? CaseResult::Type::Success : o == 'D' ? CaseResult::Type::Discard : CaseResult::Type::Failure, "says " + std::string(1, o));
  // (running again for a listener that wants the example later is not recorded)
  if (!mute) T->ev(vt::Obj("ran")("d", describe(r, tags, ex))("out", std::string(1, o)));
  if (o == 'S') RC_SUCCEED_IF(false);
  throw r;
}

static const std::vector<std::string> &ids() {
  static const std::vector<std::string> v{"", "some property", "another property", "id with \"quotes\" and 'quotes'", "x=y z", "two\nlines", std::string(300, 'q'), "_", "\xc3\xa4\xff", "reproduce=", std::string("\0x", 2)};
  return v;
}

static void scenario(vt::Rng &g, bool thorough) {
  Configuration conf;
  conf.verboseProgress = g.chance(60);
  conf.verboseShrinking = g.chance(60);
  const int k = g.in(1, 4);
  T->begin("runs", vt::Obj()("k", k)("vp", conf.verboseProgress)("vs", conf.verboseShrinking));
  std::ostringstream os;
  progress = &os;
  progressAt = 0;
  mute = false;
  struct Failed {
    std::string id;
    FailureResult f;
    Style st;
  };
  std::vector<Failed> failed;
  {
    using L = std::unique_ptr<TestListener>;
    MulticastTestListener::Listeners all;
    // the observers, with the default one somewhere between them, and some of them in a group
    const int def = g.in(0, k), grp = g.chance(40) ? g.in(1, k) : 0;
    bool placed = false;
    recorders.clear();
    auto rec = [](int i) {
      recorders.push_back(new Recorder(i));
      return recorders.back();
    };
    auto place = [&](MulticastTestListener::Listeners &to, int before) {
      if (!placed && before > def) {
        to.push_back(makeDefaultTestListener(conf, os));
        placed = true;
      }
    };
    for (int i = 1; i <= k; i++) {
      if (i == grp) {
        MulticastTestListener::Listeners sub;
        place(sub, i);
        sub.push_back(L(rec(i)));
        while (i < k && g.chance(50)) {
          i++;
          place(sub, i);
          sub.push_back(L(rec(i)));
        }
        all.push_back(L(new MulticastTestListener(std::move(sub))));
      } else {
        place(all, i);
        all.push_back(L(rec(i)));
      }
    }
    place(all, k + 1);
    MulticastTestListener multi(std::move(all));
    const int n = g.in(1, 4);
    for (run = 1; run <= n; run++) {
      Style st;
      const int kind = g.in(0, 5);
      st.failPct = kind < 3 ? g.pick(std::vector<int>{3, 20, 100}) : 0;
      st.discardPct = g.pick(std::vector<int>{0, 0, 30, 95});
      st.picks = g.in(0, 3);
      st.limit = g.in(0, 6);
      if (st.picks == 0) st.limit = 0;
      st.lowDiscards = g.chance(50) ? 50 : 0;
      st.tags = g.chance(30);
      TestParams p;
      p.seed = g.next();
      p.maxSuccess = g.pick(std::vector<int>{0, 1, 3, 10, thorough ? 100 : 30});
      p.maxSize = g.in(0, 60);
      p.maxDiscardRatio = g.in(0, 3);
      p.disableShrinking = g.chance(15);
      theMeta.id = g.pick(ids());
      theMeta.description = g.chance(50) ? theMeta.id : "description";
      progressAt = os.str().size();
      T->ev(vt::Obj("start"));
      const Property prop = toProperty([&] { theBody(st, g); });
      const auto r = testProperty(prop, theMeta, p, multi);
      vt::Obj o("res");
      resultTo(o, r);
      T->ev(o);
      T->ev(vt::Obj("out")("text", os.str().substr(progressAt)));
      mute = true;
      for (auto *x : recorders) x->look();
      mute = false;
      FailureResult f;
      if (r.match(f)) failed.push_back(Failed{theMeta.id, f, st});
    }
    progressAt = os.str().size();
  }
  // the observers are gone
  const std::string text = os.str().substr(progressAt);
  const std::string head = "Some of your RapidCheck properties had failures. To reproduce these, run with:\nRC_PARAMS=\"reproduce=", tail = "\"\n";
  vt::Obj o("summary");
  bool frame = text.size() >= head.size() + tail.size() && text.substr(0, head.size()) == head && text.substr(text.size() - tail.size()) == tail;
  std::vector<std::string> found;
  bool good = true;
  if (frame) {
    try {
      const auto m = stringToReproduceMap(text.substr(head.size(), text.size() - head.size() - tail.size()));
      for (auto &x : m) {
        found.push_back(x.first);
        bool one = false;
        for (auto &f : failed) {
          if (f.id != x.first || f.f.reproduce != x.second) continue;
          // really the same failure
          mute = true;
          Recorder nobody(0);
          TestMetadata md;
          md.id = x.first;
          vt::Rng g2(1);
          T->abandon();
          const auto r = checkProperty(toProperty([&] { theBody(f.st, g2); }), md, TestParams(), nobody, m);
          T->resume();
          FailureResult again;
          one = one || (r.match(again) && again.counterExample == f.f.counterExample && again.description == f.f.description);
          mute = false;
        }
        good = good && one;
      }
    } catch (const std::exception &) {
      good = false;
    }
  }
  T->ev(o("text", text)("frame", frame)("ids", found)("good", good));
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng g(a.seed);
  for (int i = 0; i < (a.thorough ? 2500 : 300); i++) scenario(g, a.thorough);
  return 0;
}
