// the same with the macros of Catch that have a prefix
#define CATCH_CONFIG_PREFIX_ALL
#include <catch2/catch_all.hpp>
#include "adapters.h"
#include <rapidcheck/catch.h>

CATCH_TEST_CASE("prefixed") {
  rc::prop("plain", [](const Which &w, short x) { ad::body("plain", w, x, "short", 0); });
  CATCH_SECTION("ordinary") { CATCH_REQUIRE(true); }
  rc::prop("wordy", [](Which w, const short &x) { ad::body("wordy", w, x, "short", 0); }, true);
}
