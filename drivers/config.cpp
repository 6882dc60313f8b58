// Configuration texts (property C15): parsing, printing, applying, and what a
// new process makes of RC_PARAMS.
#include "vt.h"

#include <sys/wait.h>
#include <unistd.h>

#include <rapidcheck.h>
#include "rapidcheck/detail/Configuration.h"
#include "rapidcheck/detail/Serialization.h"
#include "detail/MapParser.h"
#include "detail/ParseException.h"
#include "detail/StringSerialization.h"

using namespace rc;
using namespace rc::detail;
using Pairs = std::map<std::string, std::string>;

static vt::Trace *T;

static vt::J pairsJ(const Pairs &m) {
  std::string o;
  for (auto &p : m) o += (o.empty() ? "[" : ",[") + vt::bytes(p.first).s + "," + vt::bytes(p.second).s + "]";
  return vt::J("[" + o + "]");
}
static vt::J confJ(const Configuration &c) {
  std::vector<std::uint8_t> b;
  serialize(c.reproduce, std::back_inserter(b));
  auto n = [](int x) { return vt::u64(std::uint64_t(std::int64_t(x))); };
  return vt::Obj()("seed", vt::u64(c.testParams.seed))("success", n(c.testParams.maxSuccess))("size", n(c.testParams.maxSize))(
             "ratio", n(c.testParams.maxDiscardRatio))("noshrink", c.testParams.disableShrinking)("progress", c.verboseProgress)(
             "shrinking", c.verboseShrinking)("rep", b)
      .j();
}

static void parse(const std::string &s) {
  vt::Obj o("parse");
  o("in", vt::bytes(s));
  try {
    const Pairs m = parseMap(s);
    o("ok", true)("m", pairsJ(m));
  } catch (const ParseException &e) {
    o("ok", false)("m", 0);
    (void)e.message();
  } catch (...) {
    T->ev(vt::Obj("other")("in", vt::bytes(s)));
    return;
  }
  T->ev(o);
}
static void conf(const std::string &s, const Configuration &def) {
  vt::Obj o("conf");
  o("in", vt::bytes(s))("def", confJ(def));
  try {
    const Configuration c = configFromString(s, def);
    o("ok", true)("c", confJ(c))("msg", 0);
  } catch (const ConfigurationException &e) {
    o("ok", false)("c", 0)("msg", vt::bytes(e.what()));
  } catch (...) {
    T->ev(vt::Obj("other")("in", vt::bytes(s)));
    return;
  }
  T->ev(o);
}

// --- a new process --------------------------------------------------------------
static std::string self;
static vt::J lastSeed;
static void proc(const std::string *params) {
  int fd[2], fe[2];
  if (pipe(fd) || pipe(fe)) std::exit(3);
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 1);
    dup2(fe[1], 2);
    for (int f : {fd[0], fd[1], fe[0], fe[1]}) close(f);
    if (params) setenv("RC_PARAMS", params->c_str(), 1);
    else unsetenv("RC_PARAMS");
    execl(self.c_str(), self.c_str(), "child", static_cast<char *>(nullptr));
    _exit(127);
  }
  close(fd[1]);
  close(fe[1]);
  std::string out, err;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
  while ((n = read(fe[0], buf, sizeof buf)) > 0) err.append(buf, n);
  close(fd[0]);
  close(fe[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  std::string used;
  const std::string mark = "Using configuration: ";
  const auto at = err.find(mark);
  if (at != std::string::npos) {
    used = err.substr(at + mark.size());
    if (!used.empty() && used.back() == '\n') used.pop_back();
  }
  const int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  T->ev(vt::Obj("proc")("in", vt::bytes(params ? *params : ""))("has", params != nullptr)("rc", rc)(
      "c", out.empty() ? vt::J("0") : vt::J(out))("msg", vt::bytes(err))("using", vt::bytes(used)));
  if (rc == 0 && !out.empty()) lastSeed = vt::J(out.substr(8, out.find(']') - 7));
}

// --- inputs -----------------------------------------------------------------------
static const std::vector<std::string> kKeys = {"seed",     "max_success",      "max_size",          "max_discard_ratio",
                                               "noshrink", "verbose_progress", "verbose_shrinking", "reproduce"};
static std::string quote(const std::string &s, char q) {
  std::string o(1, q);
  for (char c : s) {
    if (c == q || c == '\\') o += '\\';
    o += c;
  }
  return o + q;
}
static Reproduce someRep(vt::Rng &g) {
  Reproduce r;
  r.random = Random(g.next());
  for (int n = g.in(0, 5); n > 0; n--) r.random.split();
  r.size = g.in(0, 100);
  for (int n = g.in(0, 4); n > 0; n--) r.shrinkPath.push_back(g.in(0, 300));
  return r;
}
static std::string someKey(vt::Rng &g) {
  std::string s;
  for (int n = g.in(0, 12); n > 0; n--) s.push_back(g.chance(80) ? char(g.in(32, 126)) : char(g.next()));
  return s;
}
static std::unordered_map<std::string, Reproduce> someReps(vt::Rng &g, int n) {
  std::unordered_map<std::string, Reproduce> m;
  while (n-- > 0) m.emplace(someKey(g), someRep(g));
  return m;
}
static Configuration someConfig(vt::Rng &g) {
  Configuration c;
  auto num = [&] { return g.pick(std::vector<int>{0, 1, 9, 10, 100, 101, 2147483647, g.in(0, 100000)}); };
  if (g.chance(80)) c.testParams.seed = g.pick(std::vector<std::uint64_t>{0, 1, ~0ull, 1ull << 63, 9, 10, g.next(), g.next() >> g.in(0, 63), 10000000000000000000ull, 9999999999999999999ull});
  if (g.chance(60)) c.testParams.maxSuccess = num();
  if (g.chance(60)) c.testParams.maxSize = num();
  if (g.chance(60)) c.testParams.maxDiscardRatio = num();
  if (g.chance(40)) c.testParams.disableShrinking = true;
  if (g.chance(40)) c.verboseProgress = true;
  if (g.chance(40)) c.verboseShrinking = true;
  if (g.chance(40)) c.reproduce = someReps(g, g.in(0, 3));
  return c;
}
static std::string someValue(vt::Rng &g, const std::string &key) {
  if (g.chance(12)) return g.pick(std::vector<std::string>{"", "x", "-1", "1x", "true", "0x1", "1.5", "1e3", "+", "-", " ", "'", "one", "99999999999999999999", "--2"});
  if (key == "reproduce") {
    std::string s = reproduceMapToString(someReps(g, g.in(0, 2)));
    if (g.chance(20)) s[g.below(s.size())] = char(g.in(33, 126));
    if (g.chance(10)) s.resize(g.below(s.size()));
    return s;
  }
  if (key == "seed") return std::to_string(g.chance(50) ? g.next() : g.next() >> g.in(0, 63));
  if (key[0] == 'n' || key[0] == 'v') return g.pick(std::vector<std::string>{"0", "1", "1", "0", "2", "01", "10"});
  return g.pick(std::vector<std::string>{"0", "1", "7", "100", "2147483647", "2147483648", "4294967296", "-5", "007", std::to_string(g.in(0, 5000))});
}
static std::string someText(vt::Rng &g) {
  static const std::vector<std::string> blanks = {" ", "  ", "\n", "\t ", " \r\n", "\v", "\f"};
  std::string s;
  for (int n = g.in(0, g.chance(2) ? 40 : 4); n > 0; n--) {
    std::string k = g.chance(85) ? g.pick(kKeys) : g.pick(std::vector<std::string>{"unknown", "SEED", "seed2", "max size", "s'eed"});
    std::string v = someValue(g, k);
    if (g.chance(20)) k = quote(k, g.chance(50) ? '"' : '\'');
    if (g.chance(35)) v = quote(v, g.chance(50) ? '"' : '\'');
    if (g.chance(15)) s += g.pick(blanks);
    s += k;
    if (g.chance(10)) s += g.pick(blanks);
    if (!g.chance(4)) s += "=";
    if (g.chance(10)) s += g.pick(blanks);
    s += v;
    s += g.pick(blanks);
  }
  if (g.chance(8) && !s.empty()) s[g.below(s.size())] = g.pick(std::vector<char>{'=', '\'', '"', '\\', ' ', '\0', 'x', '\xe5'});
  if (g.chance(4)) s.resize(g.below(s.size() + 1));
  return s;
}

int main(int argc, char **argv) {
  if (argc > 1 && std::string(argv[1]) == "child") {
    std::printf("%s", confJ(configuration()).s.c_str());
    // always the same one
    if (!(configuration() == configuration())) return 5;
    return 0;
  }
  self = argv[0];
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng g(a.seed);

  // every short text
  const std::string chars = "a= '\"\\";
  for (int len = 0; len <= (a.thorough ? 6 : 5); len++) {
    std::vector<int> d(len, 0);
    int in = 0;
    t.begin("short texts", vt::Obj()("len", len));
    for (bool more = true; more;) {
      std::string s;
      for (int x : d) s += chars[x];
      parse(s);
      if (++in % 400 == 0) {
        t.end();
        t.begin("short texts", vt::Obj()("len", len));
      }
      int i = 0;
      while (i < len && ++d[i] == int(chars.size())) d[i++] = 0;
      more = i < len;
    }
    t.end();
  }
  // every character in every place
  for (const char *frame : {"a@b=c", "@a=c", "a@=c", "a=@c d=e", "a=c@ d=e", "'a@b'=c", "a=\"b@c\"", "a=\"b\\@c\"x=y", "a@", "a=@"}) {
    t.begin("characters", vt::Obj());
    for (int c = 0; c < 256; c++) {
      std::string s = frame;
      s[s.find('@')] = char(c);
      parse(s);
    }
    t.end();
  }
  for (int i = 0; i < (a.thorough ? 1200 : 250); i++) {
    t.begin("maps", vt::Obj());
    for (int k = 0; k < 4; k++) {
      Pairs m;
      for (int n = g.chance(3) ? g.in(20, 60) : g.in(0, 4); n > 0; n--) {
        std::string key, val;
        for (int x = g.in(1, 6); x > 0; x--) key.push_back(g.chance(60) ? g.pick(std::vector<char>{' ', '=', '\'', '"', '\\', 'a', '\n', '\t'}) : char(g.next()));
        for (int x = g.in(0, 6); x > 0; x--) val.push_back(g.chance(60) ? g.pick(std::vector<char>{' ', '=', '\'', '"', '\\', 'a', '\n', '\t'}) : char(g.next()));
        m[key] = val;
      }
      for (bool dq : {false, true}) {
        const std::string s = mapToString(m, dq);
        t.ev(vt::Obj("print")("m", pairsJ(m))("out", vt::bytes(s)));
        parse(s);
      }
    }
    t.end();
  }
  // one key with every kind of value
  std::vector<std::string> values = {"",    " ",    "0",   "1",    "2",   "-0",  "-1",  "+1",  "01",   "00",        "10",
                                     "1 ",  " 1",   "1x",  "x1",   "1.0", "1,0", "1e1", "0x1", "true", "false",     "yes",
                                     "--1", "+-1",  "- 1", "1 1",  "\t1", "1\n", "9",   "a",   "A",    "2147483647", "2147483648",
                                     "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
                                     "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
                                     "-9223372036854775808", "-18446744073709551615", "-18446744073709551616", "000000000000000000000000012",
                                     "1'", "\"1\"", "1=2", "nan", "inf", "1\\", std::string("1\0", 2), std::string("\0", 1), "1\xff", "AA", "AAA", "AAAA", "BA", "A"};
  for (auto &k : kKeys) {
    t.begin("values", vt::Obj()("key", k));
    for (auto &v : values)
      for (char q : {'\'', '"'}) {
        conf(k + "=" + quote(v, q), Configuration());
        if (q == '"' && v.find_first_of(" \t\n'\"\\") == std::string::npos) conf(k + "=" + v, someConfig(g));
      }
    conf(k, Configuration());
    conf(k + "=", someConfig(g));
    for (auto &v : values) {
      // last one wins, also over a wrong one
      conf(k + "=" + quote(v, '"') + " x=y " + k + "=1", someConfig(g));
      conf(k + "=1 " + k + "=" + quote(v, '\''), someConfig(g));
    }
    t.end();
  }
  for (int i = 0; i < (a.thorough ? 3000 : 500); i++) {
    t.begin("texts", vt::Obj());
    for (int k = 0; k < 5; k++) conf(someText(g), g.chance(50) ? Configuration() : someConfig(g));
    t.end();
  }
  for (int i = 0; i < (a.thorough ? 1500 : 250); i++) {
    t.begin("forms", vt::Obj());
    for (int k = 0; k < 3; k++) {
      const Configuration c = someConfig(g);
      const std::string full = configToString(c), min = configToMinimalString(c);
      t.ev(vt::Obj("forms")("c", confJ(c))("full", vt::bytes(full))("min", vt::bytes(min)));
      conf(full, Configuration());
      conf(full, someConfig(g));
      conf(min, Configuration());
      Configuration d = c;
      switch (g.in(0, 8)) {
      case 0: d.testParams.seed += std::uint64_t(1) << g.in(0, 63); break;
      case 1: d.testParams.maxSuccess = 5; break;
      case 2: d.testParams.maxSize = 5; break;
      case 3: d.testParams.maxDiscardRatio = 5; break;
      case 4: d.testParams.disableShrinking = !c.testParams.disableShrinking; break;
      case 5: d.verboseProgress = !c.verboseProgress; break;
      case 6: d.verboseShrinking = !c.verboseShrinking; break;
      case 7: d.reproduce = someReps(g, 1); break;
      default: break;
      }
      t.ev(vt::Obj("eq")("a", confJ(c))("b", confJ(d))("eq", c == d)("ne", c != d));
    }
    t.end();
  }
  t.begin("processes without parameters", vt::Obj());
  std::string seeds;
  for (int i = 0; i < 3; i++) {
    proc(nullptr);
    seeds += (i ? "," : "") + lastSeed.s;
  }
  t.ev(vt::Obj("seeds")("s", vt::J("[" + seeds + "]")));
  t.end();
  for (int i = 0; i < (a.thorough ? 300 : 60); i++) {
    t.begin("process", vt::Obj());
    std::string s = i == 0 ? "" : i == 1 ? "'" : i == 2 ? "=" : i == 3 ? "max_success=10x" : i == 4 ? "seed=0" : i % 2 ? configToMinimalString(someConfig(g)) : someText(g);
    s = s.c_str(); // an environment variable ends at a NUL
    proc(&s);
    t.end();
  }
  return 0;
}
