// doctest is not installed here: stand-ins for what an adapter can use of it (as
// of doctest 2.4), that tell the driver what doctest would have been told.
#pragma once
#include <sstream>
#include <string>
#define DOCTEST_VERSION_MAJOR 2
#define DOCTEST_VERSION_MINOR 4
#define DOCTEST_VERSION_PATCH 11
#define DOCTEST_VERSION 20411
#define DOCTEST_LIBRARY_INCLUDED
namespace doctest {
class String : public std::string {
public:
  String() {}
  String(const char *s) : std::string(s) {}
  String(const std::string &s) : std::string(s) {}
};
namespace assertType {
enum Enum {
  is_warn = 1,
  is_check = 2,
  is_require = 4,
  is_normal = 8,
  is_throws = 16,
  is_false = 512,
  DT_WARN = is_normal | is_warn,
  DT_CHECK = is_normal | is_check,
  DT_REQUIRE = is_normal | is_require,
  DT_WARN_FALSE = DT_WARN | is_false,
  DT_CHECK_FALSE = DT_CHECK | is_false,
  DT_REQUIRE_FALSE = DT_REQUIRE | is_false
};
}
namespace detail {
void standinSection(const char *name, bool begin);
void standinInfo(const std::string &s);
void standinInfoOver();
void standinFailed(const std::string &s);
void standinPassed();
struct TestFailureException {};
[[noreturn]] inline void throwException() { throw TestFailureException(); }
struct Subcase {
  std::string n;
  explicit Subcase(const String &name, const char * = "", int = 0) : n(name) { standinSection(n.c_str(), true); }
  Subcase(const Subcase &) = delete;
  ~Subcase() { standinSection(n.c_str(), false); }
  operator bool() const { return true; }
};
struct Result {
  bool m_passed = false;
  String m_decomp;
  Result() {}
  Result(bool passed, const String &decomposition = String()) : m_passed(passed), m_decomp(decomposition) {}
};
struct ResultBuilder {
  assertType::Enum m_at;
  bool m_failed = true;
  bool m_threw = false;
  String m_decomp;
  ResultBuilder(assertType::Enum at, const char *, int, const char *, const char * = "", const String & = "") : m_at(at) {}
  void setResult(const Result &r) {
    m_failed = !r.m_passed;
    m_decomp = r.m_decomp;
  }
  void translateException() { m_threw = true; }
  bool log() {
    if (!m_failed) standinPassed();
    else if (!(m_at & assertType::is_warn)) standinFailed("");
    return false;
  }
  void react() const {
    if (m_failed && (m_at & assertType::is_require)) throwException();
  }
};
struct MessageBuilder {
  std::ostringstream s;
  assertType::Enum m_at;
  MessageBuilder(const char *, int, assertType::Enum at) : m_at(at) {}
  template <typename T>
  MessageBuilder &operator<<(const T &x) {
    s << x;
    return *this;
  }
  template <typename T>
  MessageBuilder &operator*(const T &x) {
    return *this << x;
  }
  template <typename T>
  MessageBuilder &operator,(const T &x) {
    return *this << x;
  }
  bool log() {
    if (!(m_at & assertType::is_warn)) standinFailed(s.str());
    return false;
  }
  void react() {
    if (m_at & assertType::is_require) throwException();
  }
};
struct StandinInfo {
  template <typename... Ts>
  explicit StandinInfo(const Ts &... xs) {
    std::ostringstream s;
    const int all[] = {0, (static_cast<void>(s << xs), 0)...};
    static_cast<void>(all);
    standinInfo(s.str());
  }
  ~StandinInfo() { standinInfoOver(); }
};
inline void standinAssert(bool ok, assertType::Enum at, const std::string &s = "") {
  if (ok) standinPassed();
  else if (!(at & assertType::is_warn)) {
    standinFailed(s);
    if (at & assertType::is_require) throwException();
  }
}
} // namespace detail
} // namespace doctest
#define DOCTEST_CAT2(a, b) a##b
#define DOCTEST_CAT(a, b) DOCTEST_CAT2(a, b)
#define DOCTEST_ANONYMOUS(x) DOCTEST_CAT(x, __COUNTER__)
#define DOCTEST_SUBCASE(name) \
  if (const doctest::detail::Subcase &DOCTEST_ANONYMOUS(DOCTEST_ANON_SUBCASE_) = doctest::detail::Subcase(name, __FILE__, __LINE__))
#define DOCTEST_INFO(...) const doctest::detail::StandinInfo DOCTEST_ANONYMOUS(DOCTEST_CAPTURE_)(__VA_ARGS__)
#define DOCTEST_CAPTURE(x) DOCTEST_INFO(#x " := ", x)
#define DOCTEST_ASSERT_LOG_REACT_RETURN(b) \
  if (b.log()) {                           \
  }                                        \
  b.react()
#define DOCTEST_STANDIN(at, ok, ...) doctest::detail::standinAssert(ok, doctest::assertType::at, ##__VA_ARGS__)
#define DOCTEST_STANDIN_MSG(at, ok, ...) \
  DOCTEST_STANDIN(at, ok, (static_cast<std::ostringstream &>(std::ostringstream() << __VA_ARGS__)).str())
#define DOCTEST_WARN(...) DOCTEST_STANDIN(DT_WARN, bool(__VA_ARGS__))
#define DOCTEST_CHECK(...) DOCTEST_STANDIN(DT_CHECK, bool(__VA_ARGS__))
#define DOCTEST_REQUIRE(...) DOCTEST_STANDIN(DT_REQUIRE, bool(__VA_ARGS__))
#define DOCTEST_CHECK_FALSE(...) DOCTEST_STANDIN(DT_CHECK, !bool(__VA_ARGS__))
#define DOCTEST_REQUIRE_FALSE(...) DOCTEST_STANDIN(DT_REQUIRE, !bool(__VA_ARGS__))
#define DOCTEST_CHECK_MESSAGE(c, ...) DOCTEST_STANDIN_MSG(DT_CHECK, bool(c), __VA_ARGS__)
#define DOCTEST_REQUIRE_MESSAGE(c, ...) DOCTEST_STANDIN_MSG(DT_REQUIRE, bool(c), __VA_ARGS__)
#define DOCTEST_FAIL_CHECK(...) DOCTEST_STANDIN_MSG(DT_CHECK, false, __VA_ARGS__)
#define DOCTEST_FAIL(...) DOCTEST_STANDIN_MSG(DT_REQUIRE, false, __VA_ARGS__)
#define DOCTEST_ADD_FAIL_AT(f, l, ...) DOCTEST_FAIL(__VA_ARGS__)
#define DOCTEST_ADD_FAIL_CHECK_AT(f, l, ...) DOCTEST_FAIL_CHECK(__VA_ARGS__)
#define DOCTEST_MESSAGE(...) static_cast<void>(0)
#define DOCTEST_ADD_MESSAGE_AT(f, l, ...) static_cast<void>(0)
#ifndef DOCTEST_CONFIG_NO_SHORT_MACRO_NAMES
#define SUBCASE(name) DOCTEST_SUBCASE(name)
#define INFO(...) DOCTEST_INFO(__VA_ARGS__)
#define CAPTURE(x) DOCTEST_CAPTURE(x)
#define MESSAGE(...) DOCTEST_MESSAGE(__VA_ARGS__)
#define WARN(...) DOCTEST_WARN(__VA_ARGS__)
#define CHECK(...) DOCTEST_CHECK(__VA_ARGS__)
#define REQUIRE(...) DOCTEST_REQUIRE(__VA_ARGS__)
#define CHECK_FALSE(...) DOCTEST_CHECK_FALSE(__VA_ARGS__)
#define REQUIRE_FALSE(...) DOCTEST_REQUIRE_FALSE(__VA_ARGS__)
#define CHECK_MESSAGE(c, ...) DOCTEST_CHECK_MESSAGE(c, __VA_ARGS__)
#define REQUIRE_MESSAGE(c, ...) DOCTEST_REQUIRE_MESSAGE(c, __VA_ARGS__)
#define FAIL_CHECK(...) DOCTEST_FAIL_CHECK(__VA_ARGS__)
#define FAIL(...) DOCTEST_FAIL(__VA_ARGS__)
#endif
