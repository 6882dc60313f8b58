// C04: determinism of runs, and reproduction from (random, size, path), in
// process, through the encoded string, and through RC_PARAMS of a new process.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include "detail/Testing.h"
#include "detail/StringSerialization.h"
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/Serialization.h"
#include "vt.h"
#include <iterator>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace rc;
using namespace rc::detail;

// what the hook a debugger can stop at sees (the linker takes this one)
static int stops;
static std::vector<std::string> *sinceStop; // nodes evaluated since
namespace rc {
void beforeMinimalTestCase() {
  stops++;
  if (sinceStop) sinceStop->clear();
}
}

static std::string fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  char b[32];
  std::snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
  return b;
}
static std::string brief(const std::string &s) { return s.size() < 40 ? s : s.substr(0, 20) + "~" + fnv(s); }
static std::string exStr(const Example &e) {
  std::string s;
  for (auto &p : e) s += p.first + "=" + p.second + ";";
  return s;
}
static std::string rndStr(const Random &r) {
  std::vector<uint8_t> v;
  serialize(r, std::back_inserter(v));
  return fnv(std::string(v.begin(), v.end()));
}

// ---- the properties -------------------------------------------------------

struct Ctr {};
struct CtrModel {
  int n = 0;
};
struct Inc : state::Command<CtrModel, int> {
  int by = *gen::inRange(1, 5);
  void apply(CtrModel &m) const override { m.n += by; }
  void run(const CtrModel &m, int &s) const override {
    s += by;
    RC_ASSERT(s < 17);
    (void)m;
  }
  void show(std::ostream &os) const override { os << "Inc" << by; }
};
struct Dec : state::Command<CtrModel, int> {
  void checkPreconditions(const CtrModel &m) const override { RC_PRE(m.n > 2); }
  void apply(CtrModel &m) const override { m.n -= 1; }
  void run(const CtrModel &, int &s) const override { s -= 1; }
  void show(std::ostream &os) const override { os << "Dec"; }
};

struct Named {
  std::string id;
  std::function<Property()> make;
};

static std::vector<Named> properties() {
  std::vector<Named> v;
  auto add = [&](const std::string &id, std::function<Property()> f) { v.push_back(Named{id, f}); };
  add("int", [] { return toProperty([](int a) { RC_ASSERT(a < 1000); }); });
  add("two", [] { return toProperty([](int a, int b) { RC_ASSERT(a + b < 500 || b < 10); }); });
  add("vector", [] {
    return toProperty([](const std::vector<int> &v) {
      auto w = v;
      std::sort(w.begin(), w.end());
      RC_ASSERT(w == v);
    });
  });
  add("string", [] { return toProperty([](const std::string &s) { return s.size() < 7; }); });
  add("nested picks", [] {
    return toProperty([] {
      const auto n = *gen::inRange(0, 6).as("count");
      int sum = 0;
      for (int i = 0; i < n; i++) {
        const auto b = *gen::arbitrary<bool>();
        sum += b ? *gen::inRange(0, 40).as("big") : int((*gen::container<std::vector<char>>(gen::character<char>())).size());
      }
      RC_LOG() << "sum " << sum;
      RC_ASSERT(sum < 60);
    });
  });
  add("exec", [] {
    return toProperty([](uint16_t k) {
      const auto p = *gen::exec([=] {
        auto x = *gen::inRange(0, 50);
        auto y = *gen::suchThat(gen::inRange(0, 100), [=](int z) { return z >= x; });
        return std::make_pair(x, y + k % 3);
      });
      RC_PRE(k % 5 != 0);
      return p.second - p.first < 30;
    });
  });
  add("map", [] {
    return toProperty([](const std::map<int, std::string> &m, const std::set<int> &s) {
      for (auto &kv : m) RC_ASSERT(kv.first < 50 || s.size() < 3);
    });
  });
  add("state", [] {
    return toProperty([] {
      int sut = 0;
      state::check(CtrModel(), sut, state::gen::execOneOfWithArgs<Inc, Dec>());
    });
  });
  add("tuple maybe", [] {
    return toProperty([](const std::tuple<Maybe<int>, char, double> &t, std::vector<std::pair<bool, int8_t>> v) {
      RC_TAG(v.size() % 3);
      RC_CLASSIFY(std::get<0>(t), "just");
      RC_ASSERT(v.size() < 6 || !std::get<0>(t));
    });
  });
  add("passes", [] {
    return toProperty([](const std::vector<int> &v) {
      RC_CLASSIFY(v.size() > 3, "long", v.size());
      RC_CLASSIFY(v.empty());
      RC_PRE(v.size() != 2u);
    });
  });
  add("gives up", [] { return toProperty([](int a) { RC_PRE(a > 10 && a % 4 == 0); }); });
  add("mapcat", [] {
    return toProperty([] {
      const auto xs = *gen::mapcat(gen::inRange<std::size_t>(1, 12), [](std::size_t n) {
        return gen::container<std::vector<int>>(n, gen::weightedOneOf<int>({{3, gen::inRange(0, 10)}, {1, gen::just(77)}}));
      });
      RC_ASSERT(std::count(xs.begin(), xs.end(), 77) < 2);
    });
  });
  add("unique", [] {
    return toProperty([] {
      const auto xs = *gen::unique<std::vector<int>>(gen::resize(40, gen::arbitrary<int>()));
      const auto e = *gen::elementOf(std::vector<int>{1, 5, 9});
      RC_ASSERT(xs.size() < 4 || e == 1);
    });
  });
  add("throws = \"quoted\\\" 'x'", [] {
    return toProperty([](uint64_t a, int64_t b) {
      if (a > 99 && b < 0) throw std::runtime_error("boom " + std::to_string(a));
    });
  });
  return v;
}

// ---- recording ------------------------------------------------------------

static vt::Obj resJ(const TestResult &r) {
  SuccessResult s;
  FailureResult f;
  GaveUpResult g;
  Error e;
  vt::Obj o;
  if (r.match(s)) {
    std::vector<std::string> d;
    for (auto &kv : s.distribution) {
      std::string k;
      for (auto &t : kv.first) k += t + ",";
      d.push_back(k + ":" + std::to_string(kv.second));
    }
    o("type", "ok")("n", s.numSuccess)("dist", d);
  } else if (r.match(f)) {
    o("type", "failed")("n", f.numSuccess)("desc", brief(f.description))("cex", brief(exStr(f.counterExample)))(
        "size", f.reproduce.size)("path", f.reproduce.shrinkPath)("rnd", rndStr(f.reproduce.random));
  } else if (r.match(g)) {
    o("type", "gaveup")("n", g.numSuccess)("desc", brief(g.description));
  } else if (r.match(e)) {
    o("type", "error")("n", 0)("desc", brief(e.description));
  }
  return o;
}

struct L : public TestListener {
  std::vector<std::string> log;
  static std::string cd(const CaseDescription &d) {
    std::string s = d.result.type == CaseResult::Type::Success ? "S" : d.result.type == CaseResult::Type::Failure ? "F" : "D";
    std::string tags;
    for (auto &t : d.tags) tags += t + ",";
    return s + fnv(d.result.description + "|" + tags + "|" + exStr(d.example()));
  }
  void onTestCaseFinished(const CaseDescription &d) override { log.push_back("c" + cd(d)); }
  void onShrinkTried(const CaseDescription &d, bool acc) override { log.push_back((acc ? "+" : "-") + cd(d)); }
  void onTestFinished(const TestMetadata &m, const TestResult &) override { log.push_back("end " + m.id); }
};

static std::string compress(const std::vector<std::string> &log, std::vector<std::string> &out) {
  // keep the log short: chunks of 8 entries are hashed together
  std::string c;
  for (std::size_t i = 0; i < log.size(); i++) {
    c += log[i] + "/";
    if (i % 8 == 7 || i + 1 == log.size()) {
      out.push_back(fnv(c).substr(0, 12));
      c.clear();
    }
  }
  return std::to_string(log.size());
}

struct Ran {
  int n = 0;
};
static Property counted(const Property &inner, L *l, Ran *ran) {
  return Gen<CaseDescription>([=](const Random &r, int size) {
    ran->n++;
    if (l) l->log.push_back("g" + std::to_string(size) + "." + rndStr(r));
    return inner(r, size);
  });
}

static TestResult doRun(vt::Trace &t, const Named &n, const TestParams &p, const std::string &key) {
  L l;
  Ran ran;
  TestMetadata m;
  m.id = n.id;
  const auto r = checkProperty(counted(n.make(), &l, &ran), m, p, l, {});
  std::vector<std::string> c;
  compress(l.log, c);
  t.ev(vt::Obj("run")("key", key)("log", c)("res", resJ(r)));
  return r;
}

static void doCheck(vt::Trace &t, const Named &n, const std::string &id, const TestParams &p, const std::string &key,
                    const std::unordered_map<std::string, Reproduce> &map,
                    const std::vector<std::pair<std::string, std::string>> &mapKeys) {
  L l;
  Ran ran;
  stops = 0;
  TestMetadata m;
  m.id = id;
  const auto r = checkProperty(counted(n.make(), nullptr, &ran), m, p, l, map);
  t.ev(vt::Obj("check")("id", id)("key", key)("map", mapKeys)("ns", p.disableShrinking)("res", resJ(r))("ran", ran.n)("stops", stops));
}

// ---- a new process --------------------------------------------------------

// Runs this program again as "child <prop index> ..." with the given RC_PARAMS;
// returns what it printed on stdout.
static std::string self;
static std::string spawn(const std::string &params, const std::vector<std::string> &args, std::string *err = nullptr) {
  int fd[2], fe[2];
  if (pipe(fd) || pipe(fe)) std::exit(3);
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 1);
    dup2(fe[1], 2);
    close(fd[0]);
    close(fd[1]);
    close(fe[0]);
    close(fe[1]);
    setenv("RC_PARAMS", params.c_str(), 1);
    std::vector<char *> av;
    static std::string c = "child";
    av.push_back(&self[0]);
    av.push_back(&c[0]);
    std::vector<std::string> copy = args;
    for (auto &s : copy) av.push_back(&s[0]);
    av.push_back(nullptr);
    execv(self.c_str(), av.data());
    _exit(127);
  }
  close(fd[1]);
  close(fe[1]);
  std::string out, errs;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
  while ((n = read(fe[0], buf, sizeof buf)) > 0) errs.append(buf, n);
  close(fd[0]);
  close(fe[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (err) *err = errs;
  return out;
}

// child: runs the given properties with the process configuration and prints
// for each the recorded JSON result
static int child(int argc, char **argv) {
  const auto ps = properties();
  for (int i = 2; i < argc; i++) {
    const auto &n = ps[std::atoi(argv[i])];
    Ran ran;
    TestMetadata m;
    m.id = n.id;
    stops = 0;
    const auto r = checkProperty(counted(n.make(), nullptr, &ran), m);
    std::printf("%d %d\t%s\n", ran.n, stops, vt::js(resJ(r)).s.c_str());
  }
  return 0;
}

struct Node {
  int id;
  char out;
  std::vector<Node> c;
};
static int number(Node &n, int id) {
  n.id = id++;
  for (auto &k : n.c) id = number(k, id);
  return id;
}
static std::string descOf(const Node &n) { return std::string(1, n.out) + std::to_string(n.id); }
static vt::Obj treeJ(const Node &n) {
  std::vector<vt::Obj> c;
  for (auto &k : n.c) c.push_back(treeJ(k));
  return vt::Obj()("o", std::string(1, n.out))("desc", descOf(n))("c", c);
}
static Shrinkable<CaseDescription> toCase(const Node &n) {
  const Node *p = &n;
  return shrinkable::lambda(
      [=] {
        if (sinceStop) sinceStop->push_back(descOf(*p));
        CaseDescription d;
        d.result.type = p->out == 'S' ? CaseResult::Type::Success
                                      : p->out == 'F' ? CaseResult::Type::Failure : CaseResult::Type::Discard;
        d.result.description = descOf(*p);
        d.example = [=] { return Example{{"node", descOf(*p)}}; };
        return d;
      },
      [=] {
        std::vector<const Node *> v;
        for (auto &k : p->c) v.push_back(&k);
        return seq::map(seq::fromContainer(v), [](const Node *k) { return toCase(*k); });
      });
}
static Node randomTree(vt::Rng &rng, int depth) {
  Node n;
  n.out = rng.chance(60) ? 'F' : rng.chance(50) ? 'S' : 'D';
  if (depth > 0)
    for (int i = rng.in(0, 3); i > 0; i--) n.c.push_back(randomTree(rng, depth - 1));
  return n;
}
static void walkAll(const Node &n, std::vector<std::size_t> p, std::vector<std::vector<std::size_t>> &out) {
  out.push_back(p);
  for (std::size_t i = 0; i <= n.c.size(); i++) {
    auto q = p;
    q.push_back(i);
    if (i < n.c.size()) walkAll(n.c[i], q, out);
    else out.push_back(q);
  }
}

int main(int argc, char **argv) {
  if (argc > 1 && !std::strcmp(argv[1], "child")) return child(argc, argv);
  char exe[4096];
  const ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1);
  self = std::string(exe, el > 0 ? el : 0);
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 3);
  vt::Rng rng(a.seed);
  const auto ps = properties();

  const int rounds = a.thorough ? 30 : 5;
  for (int round = 0; round < rounds; round++) {
    // all properties together: run, run again in another order, reproduce
    TestParams p;
    p.seed = round == 0 ? 0 : round == 1 ? ~0ULL : rng.next();
    p.maxSuccess = round < 2 ? 100 : rng.in(20, 300);
    p.maxSize = round < 2 ? 100 : rng.in(10, 150);
    p.maxDiscardRatio = rng.in(1, 10);
    TestParams pn = p;
    pn.disableShrinking = true;
    t.begin("suite", vt::Obj()("seed", vt::u64(p.seed))("ms", p.maxSuccess)("sz", p.maxSize));
    std::unordered_map<std::string, Reproduce> all, some;
    std::vector<std::pair<std::string, std::string>> allKeys, someKeys;
    for (auto &n : ps) {
      const auto r = doRun(t, n, p, n.id);
      doRun(t, n, pn, n.id + "/noshrink");
      FailureResult f;
      if (r.match(f)) {
        all.emplace(n.id, f.reproduce);
        allKeys.emplace_back(n.id, n.id);
        if (rng.chance(50)) {
          some.emplace(n.id, f.reproduce);
          someKeys.emplace_back(n.id, n.id);
        }
      }
    }
    for (int i = (int)ps.size() - 1; i >= 0; i--) doRun(t, ps[i], p, ps[i].id);
    if (someKeys.empty() && !allKeys.empty()) {
      some.insert(*all.find(allKeys[0].first));
      someKeys.push_back(allKeys[0]);
    }
    const auto viaString = stringToReproduceMap(reproduceMapToString(all));
    for (auto &n : ps) {
      doCheck(t, n, n.id, p, n.id, {}, {});
      for (const auto *q : {&p, &pn}) {
        if (!allKeys.empty()) doCheck(t, n, n.id, *q, n.id, all, allKeys);
        if (!allKeys.empty()) doCheck(t, n, n.id, *q, n.id, viaString, allKeys);
        if (!someKeys.empty()) doCheck(t, n, n.id, *q, n.id, some, someKeys);
        if (!someKeys.empty()) doCheck(t, n, "", *q, n.id, some, someKeys);
        if (!someKeys.empty()) doCheck(t, n, n.id + "x", *q, n.id, some, someKeys);
      }
    }
    t.end();

    // a new process with the same parameters, then with the reproduction data
    if (round < (a.thorough ? 10 : 3)) {
      std::vector<std::string> args;
      for (std::size_t i = 0; i < ps.size(); i++) args.push_back(std::to_string(i));
      t.begin("process", vt::Obj()("seed", vt::u64(p.seed))("ms", p.maxSuccess)("sz", p.maxSize));
      for (auto &n : ps) {
        L l;
        TestMetadata m;
        m.id = n.id;
        Ran ran;
        const auto r = checkProperty(counted(n.make(), nullptr, &ran), m, p, l, {});
        t.ev(vt::Obj("run")("key", n.id)("log", std::vector<std::string>{"ran" + std::to_string(ran.n)})("res", resJ(r)));
        const auto rn = checkProperty(counted(n.make(), nullptr, &ran), m, pn, l, {});
        t.ev(vt::Obj("run")("key", n.id + "/noshrink")("log", std::vector<std::string>{})("res", resJ(rn)));
      }
      for (int mode = 0; mode < 4; mode++) {
        std::ostringstream params;
        params << "seed=" << p.seed << " max_success=" << p.maxSuccess << " max_size=" << p.maxSize
               << " max_discard_ratio=" << p.maxDiscardRatio;
        if (mode == 1 || mode == 2) params << " reproduce=" << reproduceMapToString(mode == 1 ? all : some);
        if (mode == 3) params << " noshrink=1 reproduce=" << reproduceMapToString(all);
        std::string err;
        std::istringstream out(spawn(params.str(), args, &err));
        std::string line;
        std::size_t i = 0;
        while (std::getline(out, line)) {
          const auto tab = line.find('\t');
          int ran = -1, stopped = -1;
          std::sscanf(line.c_str(), "%d %d", &ran, &stopped);
          const vt::J res(line.substr(tab + 1));
          const auto &n = ps[i++ % ps.size()];
          if (mode == 0)
            t.ev(vt::Obj("run")("key", n.id)("log", std::vector<std::string>{"ran" + std::to_string(ran)})("res", res));
          else
            t.ev(vt::Obj("check")("id", n.id)("key", n.id)("map", mode == 2 ? someKeys : allKeys)("ns", mode == 3)(
                "res", res)("ran", ran)("stops", stopped));
        }
        if (i != ps.size()) t.ev(vt::Obj("child-died")("n", i)("err", err.substr(0, 300)));
      }
      t.end();
    }
  }

  // single properties under many seeds: run twice and reproduce
  for (int i = 0; i < (a.thorough ? 1500 : 150); i++) {
    const auto &n = ps[rng.in(0, ps.size() - 1)];
    TestParams p;
    p.seed = rng.next();
    p.maxSize = rng.pick(std::vector<int>{0, 1, 5, 50, 100, 200});
    p.maxSuccess = rng.pick(std::vector<int>{1, 10, 100, 150});
    TestParams pn = p;
    pn.disableShrinking = true;
    t.begin("single", vt::Obj()("prop", n.id)("seed", vt::u64(p.seed))("ms", p.maxSuccess)("sz", p.maxSize));
    const auto r = doRun(t, n, p, n.id);
    doRun(t, n, pn, n.id + "/noshrink");
    doRun(t, n, p, n.id);
    FailureResult f;
    if (r.match(f)) {
      std::unordered_map<std::string, Reproduce> map{{n.id, f.reproduce}};
      doCheck(t, n, n.id, p, n.id, stringToReproduceMap(reproduceMapToString(map)), {{n.id, n.id}});
      doCheck(t, n, n.id, pn, n.id, map, {{n.id, n.id}});
    }
    t.end();
  }

  // stale data: explicit trees, every path in them and one step beyond
  for (int i = 0; i < (a.thorough ? 600 : 80); i++) {
    Node tree = randomTree(rng, rng.in(0, 4));
    number(tree, 0);
    std::vector<std::vector<std::size_t>> paths;
    walkAll(tree, {}, paths);
    t.begin("stale", vt::Obj()("tree", treeJ(tree)));
    for (int k = 0; k < 25; k++) {
      const auto path = k < 5 && !paths.empty() ? paths[std::min<std::size_t>(k, paths.size() - 1)] : rng.pick(paths);
      Reproduce rep;
      rep.random = Random(rng.next());
      rep.size = rng.in(0, 100);
      rep.shrinkPath = path;
      if (rng.chance(10)) rep.shrinkPath.push_back(rng.chance(50) ? ~std::size_t(0) : rng.in(3, 9));
      // positions that lead nowhere, though their low bits would
      if (!rep.shrinkPath.empty() && rng.chance(15)) {
        rep.shrinkPath[rng.below(rep.shrinkPath.size())] += std::size_t(1) << rng.pick(std::vector<int>{8, 16, 31, 32, 33, 63});
      }
      TestParams p;
      p.disableShrinking = rng.chance(20);
      TestMetadata m;
      m.id = "t";
      L l;
      Property prop = Gen<CaseDescription>([&](const Random &, int) { return toCase(tree); });
      std::vector<std::string> evaluated;
      stops = 0;
      sinceStop = &evaluated;
      const auto r = checkProperty(prop, m, p, l, {{"t", rep}});
      sinceStop = nullptr;
      FailureResult f;
      Error e;
      vt::Obj res;
      if (r.match(f)) res("type", "failed")("desc", f.description)("cex", f.counterExample)("path", f.reproduce.shrinkPath);
      else if (r.match(e)) res("type", "error");
      else res("type", "other");
      t.ev(vt::Obj("tree")("path", rep.shrinkPath)("ns", p.disableShrinking)("res", res)("stops", stops)("after", evaluated));
    }
    t.end();
  }
  return 0;
}
