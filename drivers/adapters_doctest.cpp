#include "adapters.h"
#include <doctest/doctest.h>
#include <rapidcheck/doctest.h>

namespace {
std::vector<std::string> infos;
bool bad = false, good = false;
} // namespace
namespace doctest {
namespace detail {
void standinSection(const char *name, bool begin) {
  const std::string n = name;
  if (begin) {
    infos.clear();
    good = bad = false;
    ad::start(n, n == "wordy" ? "wordy" : "plain", "", n);
  } else {
    ad::finish(n, good && !bad);
  }
}
void standinInfo(const std::string &s) { infos.push_back(s); }
void standinInfoOver() { infos.pop_back(); }
void standinFailed(const std::string &s) {
  bad = true;
  std::string all = s;
  for (const std::string &x : infos) all += x;
  ad::parts.push_back(all);
}
void standinPassed() { good = true; }
} // namespace detail
} // namespace doctest

template <typename F>
static void test(const F &f) {
  try {
    f();
  } catch (const doctest::detail::TestFailureException &) {
  }
}
int ad::runDoctest() {
  test([] { rc::doctest::check("plain", [](const Which &w, int x) { ad::body("plain", w, x, "int", 0); }); });
  test([] { rc::doctest::check("wordy", [](const Which &w, int x) { ad::body("wordy", w, x, "int", 0); }, true); });
  test([] { rc::doctest::check([](const Which &w, long x) { ad::body("", w, x, "long", 0); }); });
  return 0;
}
