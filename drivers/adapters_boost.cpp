#define BOOST_TEST_DYN_LINK
#define BOOST_TEST_NO_MAIN
#include <boost/test/unit_test.hpp>
#include <boost/test/unit_test_log.hpp>
#include <boost/test/unit_test_log_formatter.hpp>
#include <boost/test/tree/observer.hpp>
#include <boost/test/results_collector.hpp>
#include <boost/test/framework.hpp>
#include <boost/test/execution_monitor.hpp>
#include "adapters.h"
#include <rapidcheck/boost_test.h>

namespace ut = boost::unit_test;

BOOST_AUTO_TEST_SUITE(suite)
RC_BOOST_PROP(plain, (const Which &w, int x)) { ad::body("suite/plain", w, x, "int", 0); }
BOOST_AUTO_TEST_CASE(ordinary) { BOOST_CHECK(true); }
struct Made {
  Made() : id(++ad::fixtures) { ad::fix("make", id); }
  ~Made() { ad::fix("unmake", id); }
  int id;
};
RC_BOOST_FIXTURE_PROP(fixed, Made, (const Which &w, long x)) { ad::body("suite/fixed", w, x, "long", id); }
BOOST_AUTO_TEST_SUITE(inner)
RC_BOOST_PROP(plain, (const Which &w, int x)) { ad::body("suite/inner/plain", w, x, "int", 0); }
BOOST_AUTO_TEST_SUITE_END()
BOOST_AUTO_TEST_SUITE_END()
RC_BOOST_PROP(alone, (Which w, long x)) { ad::body("alone", w, x, "long", 0); }

namespace {
struct Watch : ut::test_observer {
  static bool mine(ut::test_unit const &u) { return u.p_type == ut::TUT_CASE; }
  void test_unit_start(ut::test_unit const &u) override {
    const std::string n = u.full_name();
    if (mine(u)) ad::start(n, n == "suite/ordinary" ? "ordinary" : n == "suite/fixed" ? "made" : "plain", n, u.p_name.get());
  }
  void test_unit_finish(ut::test_unit const &u, unsigned long) override {
    if (mine(u)) ad::finish(u.full_name(), ut::results_collector.results(u.p_id).passed());
  }
};
struct Form : ut::unit_test_log_formatter {
  std::string text;
  bool failing = false;
  void log_start(std::ostream &, ut::counter_t) override {}
  void log_finish(std::ostream &) override {}
  void log_build_info(std::ostream &, bool) override {}
  void test_unit_start(std::ostream &, ut::test_unit const &) override {}
  void test_unit_finish(std::ostream &, ut::test_unit const &, unsigned long) override {}
  void test_unit_skipped(std::ostream &, ut::test_unit const &, ut::const_string) override {}
  void log_exception_start(std::ostream &, ut::log_checkpoint_data const &, boost::execution_exception const &e) override {
    ad::parts.push_back("exception: " + std::string(e.what().begin(), e.what().end()));
  }
  void log_exception_finish(std::ostream &) override {}
  void log_entry_start(std::ostream &, ut::log_entry_data const &, log_entry_types t) override {
    text.clear();
    failing = t == BOOST_UTL_ET_ERROR || t == BOOST_UTL_ET_FATAL_ERROR;
  }
  void log_entry_value(std::ostream &, ut::const_string v) override { text += std::string(v.begin(), v.end()); }
  void log_entry_value(std::ostream &os, ut::lazy_ostream const &v) override {
    std::ostringstream s;
    s << v;
    text += s.str();
    (void)os;
  }
  void log_entry_finish(std::ostream &) override {
    if (failing) ad::parts.push_back(text);
  }
  void entry_context_start(std::ostream &, ut::log_level) override {}
  void log_entry_context(std::ostream &, ut::log_level, ut::const_string) override {}
  void entry_context_finish(std::ostream &, ut::log_level) override {}
};
bool init() { return true; }
} // namespace

int ad::runBoost() {
  char a0[] = "adapters", a1[] = "--log_level=error", a2[] = "--report_level=no", a3[] = "--color_output=no", a4[] = "--catch_system_errors=no", *argv[] = {a0, a1, a2, a3, a4, nullptr};
  ut::framework::init(&init, 5, argv);
  ut::framework::finalize_setup_phase();
  static Watch w;
  ut::framework::register_observer(w);
  ut::unit_test_log.set_formatter(new Form);
  ut::unit_test_log.set_threshold_level(ut::log_all_errors);
  ut::framework::run();
  ut::framework::deregister_observer(w);
  ut::framework::shutdown();
  return 0;
}
