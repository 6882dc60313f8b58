#include <catch2/catch_all.hpp>
#include "adapters.h"
#include <rapidcheck/catch.h>

TEST_CASE("catch") {
  rc::prop("plain", [](const Which &w, int x) { ad::body("plain", w, x, "int", 0); });
  SECTION("ordinary") { REQUIRE(true); }
  rc::prop("wordy", [](Which w, long x) { ad::body("wordy", w, x, "long", 0); }, true);
  rc::prop("more", [](Which w, long x) { ad::body("more", w, x, "long", 0); });
}

namespace {
struct Watch : Catch::EventListenerBase {
  using Catch::EventListenerBase::EventListenerBase;
  std::vector<std::string> open;
  void sectionStarting(Catch::SectionInfo const &i) override {
    open.push_back(i.name);
    if (open.size() == 2) ad::start(i.name, i.name == "ordinary" ? "ordinary" : i.name == "wordy" ? "wordy" : "plain", "", i.name);
  }
  void assertionEnded(Catch::AssertionStats const &s) override {
    if (s.assertionResult.isOk()) return;
    std::string t;
    for (auto &m : s.infoMessages) t += m.message;
    ad::parts.push_back(t);
  }
  void sectionEnded(Catch::SectionStats const &s) override {
    if (open.size() == 2) ad::finish(s.sectionInfo.name, s.assertions.allPassed() && s.assertions.total() > 0);
    open.pop_back();
  }
};
CATCH_REGISTER_LISTENER(Watch)
} // namespace

int ad::runCatch(const char *test) {
  Catch::Session s;
  const char *argv[] = {"adapters", "-o", "/dev/null", test};
  if (s.applyCommandLine(4, argv) != 0) return 3;
  s.run();
  return 0;
}
