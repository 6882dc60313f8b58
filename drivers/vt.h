// Trace recording shared by all drivers. One scenario per line:
//   {"id":n,"name":"..","cfg":{..},"ev":[{"e":"..",..},..]}
// TLC integers are 32 bit: anything wider is recorded as a sequence of 16-bit
// limbs, least significant first (vt::u64), and plain integers are clamped to
// +-VT_BIG so that a wild value can never wrap around into a legal one.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vt {

static const long long VT_BIG = 2147483647LL;

inline std::string esc(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

struct J {
  std::string s;
  J() {}
  explicit J(std::string raw) : s(std::move(raw)) {}
};

inline J js(const J &j) { return j; }
inline J js(const std::string &x) { return J(esc(x)); }
inline J js(const char *x) { return J(esc(x)); }
inline J js(bool b) { return J(b ? "true" : "false"); }
template <typename T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, J>::type
js(T v) {
  long long x;
  if (std::is_unsigned<T>::value) {
    unsigned long long u = static_cast<unsigned long long>(v);
    x = u > (unsigned long long)VT_BIG ? VT_BIG : (long long)u;
  } else {
    x = static_cast<long long>(v);
    if (x > VT_BIG) x = VT_BIG;
    if (x < -VT_BIG) x = -VT_BIG;
  }
  return J(std::to_string(x));
}
template <typename A, typename B>
J js(const std::pair<A, B> &p);
template <typename T>
J js(const std::vector<T> &v) {
  std::string o = "[";
  bool first = true;
  for (const auto &e : v) {
    if (!first) o += ',';
    first = false;
    o += js(static_cast<T>(e)).s;
  }
  return J(o + "]");
}
template <typename A, typename B>
J js(const std::pair<A, B> &p) {
  return J("[" + js(p.first).s + "," + js(p.second).s + "]");
}

// 64-bit word as four 16-bit limbs, least significant first
inline J u64(uint64_t x) {
  std::vector<int> v;
  for (int i = 0; i < 4; i++) v.push_back(int((x >> (16 * i)) & 0xffff));
  return js(v);
}
// bytes as a sequence of 0..255
inline J bytes(const std::string &s) {
  std::vector<int> v;
  for (unsigned char c : s) v.push_back(c);
  return js(v);
}

class Obj {
public:
  Obj() {}
  explicit Obj(const char *ev) { (*this)("e", ev); }
  template <typename T>
  Obj &operator()(const char *k, const T &v) {
    if (!m_s.empty()) m_s += ',';
    m_s += esc(k) + ":" + js(v).s;
    return *this;
  }
  J j() const { return J("{" + m_s + "}"); }

private:
  std::string m_s;
};
inline J js(const Obj &o) { return o.j(); }

class Trace {
public:
  Trace(const std::string &dir, const std::string &base = "trace", int shards = 1)
      : m_dir(dir), m_n(0), m_open(false) {
    for (int i = 0; i < shards; i++) {
      std::string f = dir + "/" + base + (shards > 1 ? "-" + std::to_string(i) : "") + ".ndjson";
      FILE *h = std::fopen(f.c_str(), "w");
      if (!h) {
        std::perror(f.c_str());
        std::exit(3);
      }
      m_f.push_back(h);
    }
  }
  ~Trace() {
    for (auto f : m_f) std::fclose(f);
  }
  void begin(const std::string &name, const Obj &cfg) {
    m_name = name;
    m_cfg = cfg.j().s;
    m_ev.clear();
    m_open = true;
    std::string p = m_dir + "/progress.txt";
    if (FILE *h = std::fopen(p.c_str(), "w")) {
      std::fprintf(h, "#%d %s %s\n", m_n + 1, name.c_str(), m_cfg.c_str());
      std::fclose(h);
    }
  }
  void cfg(const Obj &cfg) { m_cfg = cfg.j().s; }
  void ev(const Obj &o) {
    if (!m_open) return;
    if (!m_ev.empty()) m_ev += ',';
    m_ev += o.j().s;
  }
  // an event another process has written
  void evRaw(const std::string &s) {
    if (!m_open) return;
    if (!m_ev.empty()) m_ev += ',';
    m_ev += s;
  }
  bool open() const { return m_open; }
  void abandon() { m_open = false; } // mute recording
  void resume() { m_open = true; }
  void end() {
    m_open = false;
    FILE *f = m_f[m_n % m_f.size()];
    m_n++;
    std::fprintf(f, "{\"id\":%d,\"name\":%s,\"cfg\":%s,\"ev\":[%s]}\n", m_n, esc(m_name).c_str(),
                 m_cfg.c_str(), m_ev.c_str());
    std::fflush(f);
  }
  int count() const { return m_n; }

private:
  std::string m_dir;
  std::vector<FILE *> m_f;
  int m_n;
  bool m_open;
  std::string m_name, m_cfg, m_ev;
};

// The drivers' own random source: independent of the code under test.
class Rng {
public:
  explicit Rng(uint64_t s) : m_s(s * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) {
    for (int i = 0; i < 4; i++) next();
  }
  uint64_t next() {
    uint64_t z = (m_s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  // inclusive
  int in(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
  int below(uint64_t n) { return int(next() % n); }
  bool chance(int pct) { return in(1, 100) <= pct; }
  template <typename T>
  const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }

private:
  uint64_t m_s;
};

struct Args {
  std::string dir;
  uint64_t seed;
  bool thorough;
  Args(int argc, char **argv)
      : dir(argc > 1 ? argv[1] : "."), seed(argc > 2 ? std::strtoull(argv[2], 0, 10) : 1),
        thorough(argc > 3 && !std::strcmp(argv[3], "thorough")) {}
};

// Reads a sequence of the library, and copies of it on the way, some elements ahead
// of it: whatever is done to one, the others must not notice.
template <typename S>
class Reader {
public:
  explicit Reader(S s, int pct = 12) : m_s(std::move(s)), m_g(++count()), m_pct(pct) {}
  auto next() -> decltype(std::declval<S &>().next()) {
    if (m_g.chance(m_pct)) {
      S copy(m_s);
      if (m_g.chance(50)) std::swap(copy, m_s);
      for (int n = m_g.pick(std::vector<int>{1, 1, 2, 5, 40}); n > 0 && copy.next(); n--) {
      }
    }
    return m_s.next();
  }

private:
  static uint64_t &count() {
    static uint64_t n = 0;
    return n;
  }
  S m_s;
  Rng m_g;
  int m_pct;
};
template <typename S>
Reader<S> reader(S s) {
  return Reader<S>(std::move(s));
}

} // namespace vt
