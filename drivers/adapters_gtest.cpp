#include "adapters.h"
#include <gmock/gmock.h>
#include <gtest/gtest.h>
#include <rapidcheck/gtest.h>
#include <rapidcheck/gmock.h>
#include <rapidcheck/boost.h>

RC_GTEST_PROP(Suite, plain, (const Which &w, int x)) { ad::body("Suite/plain", w, x, "int", 0); }
RC_GTEST_PROP(Suite, other, (Which w, const long &x)) { ad::body("Suite/other", w, x, "long", 0); }
TEST(Suite, ordinary) { EXPECT_EQ(2, 1 + 1); }
RC_GTEST_PROP(Suite2, plain, (Which w, int x)) { ad::body("Suite2/plain", w, x, "int", 0); }

class Fix : public ::testing::Test {
protected:
  Fix() : id(++ad::fixtures) { ad::fix("make", id); }
  ~Fix() override { ad::fix("unmake", id); }
  void SetUp() override { ad::fix("setup", id); }
  void TearDown() override { ad::fix("teardown", id); }
  int id;
};
RC_GTEST_FIXTURE_PROP(Fix, one, (const Which &w, int x)) { ad::body("Fix_RapidCheck/one", w, x, "int", id); }
RC_GTEST_FIXTURE_PROP(Fix, two, (const Which &w, short x)) { ad::body("Fix_RapidCheck/two", w, x, "short", id); }

template <typename T>
class Typed : public Fix {};
TYPED_TEST_SUITE_P(Typed);
typedef ::testing::Types<int, long> Types;
template <typename T>
class Typed2 : public Fix {};
TYPED_TEST_SUITE(Typed2, Types);
RC_GTEST_TYPED_FIXTURE_PROP(Typed2, one, (const Which &w, TypeParam x)) {
  ad::body(std::is_same<TypeParam, int>::value ? "Typed2/0/one" : "Typed2/1/one", w, x, std::is_same<TypeParam, int>::value ? "int" : "long", this->id);
}

namespace {
std::string nameOf(const ::testing::TestInfo &i) { return std::string(i.test_suite_name()) + "/" + i.name(); }
struct Watch : ::testing::EmptyTestEventListener {
  void OnTestStart(const ::testing::TestInfo &i) override {
    const std::string n = nameOf(i);
    ad::start(n, n == "Suite/ordinary" ? "ordinary" : n.compare(0, 3, "Fix") == 0 ? "fixture" : n.compare(0, 5, "Typed") == 0 ? "typed" : "plain", n, "");
  }
  void OnTestPartResult(const ::testing::TestPartResult &r) override { ad::parts.push_back(r.message()); }
  void OnTestEnd(const ::testing::TestInfo &i) override { ad::finish(nameOf(i), i.result()->Passed()); }
};
} // namespace

int ad::runGTest() {
  int argc = 1;
  char a0[] = "adapters", *argv[] = {a0, nullptr};
  ::testing::InitGoogleTest(&argc, argv);
  ::testing::GTEST_FLAG(filter) = "-Mock.*";
  auto &l = ::testing::UnitTest::GetInstance()->listeners();
  delete l.Release(l.default_result_printer());
  l.Append(new Watch);
  (void)RUN_ALL_TESTS();
  return 0;
}

// ------------------------------------------------------------------- Google Mock
namespace {
struct Turtle {
  virtual ~Turtle() {}
  virtual void go(int) = 0;
};
struct MockTurtle : Turtle {
  MOCK_METHOD(void, go, (int), (override));
};
bool inside = false;
// who: the framework itself, or the listener that was there before
struct Tell : ::testing::EmptyTestEventListener {
  explicit Tell(const char *who) : who(who) {}
  ~Tell() override {
    if (who == std::string("before")) ad::ev(vt::Obj("gone"));
  }
  void tell(const char *t, const std::string &s) { ad::ev(vt::Obj("told")("who", who)("t", t)("s", s)("in", inside)("fails", false)("fatal", false)("at", "")); }
  const char *who;
  static std::string n(const ::testing::TestInfo &i) { return nameOf(i); }
  void OnTestProgramStart(const ::testing::UnitTest &) override { tell("program", ""); }
  void OnTestIterationStart(const ::testing::UnitTest &, int i) override { tell("iteration", std::to_string(i)); }
  void OnEnvironmentsSetUpStart(const ::testing::UnitTest &) override { tell("setup", ""); }
  void OnEnvironmentsSetUpEnd(const ::testing::UnitTest &) override { tell("set up", ""); }
  void OnTestCaseStart(const ::testing::TestSuite &s) override { tell("suite", s.name()); }
  void OnTestStart(const ::testing::TestInfo &i) override { tell("test", n(i)); }
  void OnTestPartResult(const ::testing::TestPartResult &r) override {
    ad::ev(vt::Obj("told")("who", who)("t", "part")("s", r.message())("in", inside)("fails", r.failed())("fatal", r.type() == ::testing::TestPartResult::kFatalFailure)(
        "at", r.file_name() ? std::string(r.file_name()) + ":" + std::to_string(r.line_number()) + ":\n" : ""));
  }
  void OnTestEnd(const ::testing::TestInfo &i) override { tell("tested", n(i)); }
  void OnTestCaseEnd(const ::testing::TestSuite &s) override { tell("suite over", s.name()); }
  void OnEnvironmentsTearDownStart(const ::testing::UnitTest &) override { tell("teardown", ""); }
  void OnEnvironmentsTearDownEnd(const ::testing::UnitTest &) override { tell("torn down", ""); }
  void OnTestIterationEnd(const ::testing::UnitTest &, int i) override { tell("iterated", std::to_string(i)); }
  void OnTestProgramEnd(const ::testing::UnitTest &) override { tell("over", ""); }
};

void fatal(const std::string &m) { GTEST_MESSAGE_AT_("fatal.cc", 9, m.c_str(), ::testing::TestPartResult::kFatalFailure); }
void happen(vt::Rng &g) {
  switch (g.in(0, 7)) {
  case 0: ADD_FAILURE_AT("some.cc", g.in(1, 99)) << "wrong"; break;
  case 1: ADD_FAILURE_AT("other.cc", 3) << ""; break;
  case 2: EXPECT_EQ(1, 2) << "l1\nl2"; break;
  case 3: SUCCEED() << "fine"; break;
  case 4: fatal("very wrong"); break;
  case 5: {
    ::testing::StrictMock<MockTurtle> m;
    EXPECT_CALL(m, go(7)).Times(g.in(0, 2));
    for (int i = g.in(0, 2); i > 0; i--) m.go(g.chance(70) ? 7 : 8);
    break;
  }
  case 6: {
    ::testing::NiceMock<MockTurtle> m;
    m.go(1);
    break;
  }
  default: break;
  }
}
std::ostringstream errors; // what is printed if there is nobody to pass it on to
// one property run, and what happens around it
void mocked(const char *name) {
  std::uint64_t h = ad::seed;
  for (const char *c = name; *c; c++) h = h * 1099511628211ULL + std::uint64_t(*c);
  vt::Rng g(h);
  for (int k = g.in(0, 2); k > 0; k--) happen(g);
  for (int runs = g.in(1, 2); runs > 0; runs--) {
    const std::uint64_t s = g.next();
    const int badPct = g.pick(std::vector<int>{0, 20, 100});
    std::ostringstream err;
    ad::ev(vt::Obj("check")("printed", errors.str()));
    errors.str("");
    auto *old = std::cerr.rdbuf(err.rdbuf());
    const bool ok = rc::check([&](const Which &w) {
      vt::Rng c(s + w.r);
      inside = true;
      ad::ev(vt::Obj("enter")("ex", vt::J("[[\"std::tuple<Which>\",\"(plan " + std::to_string(w.r) + ")\"]]")));
      if (c.chance(badPct))
        for (int k = c.in(1, 3); k > 0; k--) happen(c);
      const int how = c.in(0, 9);
      const std::string desc = how == 0 ? "said no" : "no exceptions thrown";
      inside = false;
      ad::ev(vt::Obj("leave")("out", how == 0 ? "F" : how == 1 ? "D" : "S")("desc", desc));
      if (how == 0) throw rc::detail::CaseResult(rc::detail::CaseResult::Type::Failure, desc);
      if (how == 1) throw rc::detail::CaseResult(rc::detail::CaseResult::Type::Discard, desc);
    });
    std::cerr.rdbuf(old);
    std::string text = err.str();
    if (!text.empty()) text.pop_back();
    ad::ev(vt::Obj("checked")("pass", ok)("text", text));
    for (int k = g.in(0, 1); k > 0; k--) happen(g);
  }
}
} // namespace
TEST(Mock, first) { mocked("first"); }
TEST(Mock, second) { mocked("second"); }

int ad::runGMock() {
  int argc = 1;
  char a0[] = "adapters", *argv[] = {a0, nullptr};
  ::testing::InitGoogleMock(&argc, argv);
  ::testing::GTEST_FLAG(filter) = "Mock.*";
  ::testing::GTEST_FLAG(catch_exceptions) = false;
  auto &l = ::testing::UnitTest::GetInstance()->listeners();
  l.Append(new Tell("it"));
  if (ad::how() == "before") {
    delete l.Release(l.default_result_printer());
    l.Append(new rc::gmock::RapidCheckListener(std::unique_ptr<::testing::TestEventListener>(new Tell("before"))));
    (void)RUN_ALL_TESTS();
  } else if (ad::how() == "nobody") {
    // there is nobody to pass anything on to: it is printed
    delete l.Release(l.default_result_printer());
    if (ad::seed % 2) l.Append(new rc::gmock::RapidCheckListener);
    else rc::gmock::RapidCheckListener::install();
    auto *old = std::cerr.rdbuf(errors.rdbuf());
    (void)RUN_ALL_TESTS();
    std::cerr.rdbuf(old);
    ad::ev(vt::Obj("printed")("text", errors.str()));
  } else {
    // installed: what was there before is the printer, here seen by its output
    std::fflush(stdout);
    rc::gmock::RapidCheckListener::install();
    ad::ev(vt::Obj("installed")("alone", l.default_result_printer() == nullptr));
    (void)RUN_ALL_TESTS();
  }
  return 0;
}
