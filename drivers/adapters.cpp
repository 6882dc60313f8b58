// Test framework adapters (property C23): every scenario is a process running one
// framework, and, when something failed, a second one with what the first one
// said reproduces the failures.
#include "adapters.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/StringSerialization.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>

namespace ad {
std::uint64_t seed;
FILE *events;
std::unique_ptr<Cout> cout_;
std::vector<std::string> parts;
int fixtures = 0;
} // namespace ad

namespace ad {
vt::Trace *T;
}
using ad::T;
static const char *self;

static int child(const std::string &kind) {
  rc::detail::configuration();
  if (kind == "gtest") return ad::runGTest();
  if (kind == "gmock") return ad::runGMock();
  if (kind == "boost") return ad::runBoost();
  if (kind == "catch") return ad::runCatch("catch");
  if (kind == "prefixed") return ad::runCatch("prefixed");
  if (kind == "doctest") return ad::runDoctest();
  return 3;
}
static std::string slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream s;
  s << in.rdbuf();
  return s.str();
}
static int spawn(const std::string &kind, std::uint64_t seed, const std::string &params, const std::string &base) {
  const pid_t p = fork();
  if (p == 0) {
    const int o = open((base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    const int e = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(o, 1);
    dup2(e, 2);
    alarm(120);
    setenv("RC_PARAMS", params.c_str(), 1);
    const std::string s = std::to_string(seed), f = base + ".ev";
    execl(self, self, "--child", kind.c_str(), s.c_str(), f.c_str(), (char *)nullptr);
    _exit(4);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
// the events of the child, and what it printed at its end
static std::string take(const std::string &base, int rc, const std::string &kind) {
  std::istringstream in(slurp(base + ".ev"));
  for (std::string l; std::getline(in, l);) T->evRaw(l);
  const std::string err = slurp(base + ".err"), out = slurp(base + ".out");
  std::vector<std::string> ids;
  std::string said;
  const std::string mark = "RC_PARAMS=\"";
  const auto p = err.find(mark);
  if (p != std::string::npos) {
    const auto q = err.find('"', p + mark.size());
    said = err.substr(p + mark.size(), q - p - mark.size());
    try {
      for (auto &x : rc::detail::stringToReproduceMap(said.substr(said.find('=') + 1))) ids.push_back(x.first);
    } catch (...) {
      ids.push_back("?");
    }
  }
  int runs = 0, failures = 0;
  std::istringstream o(out);
  for (std::string l; std::getline(o, l);) {
    runs += l.compare(0, 12, "[ RUN      ]") == 0;
    failures += l.size() > 9 && l.compare(l.size() - 9, 9, ": Failure") == 0;
  }
  T->ev(vt::Obj("exit")("rc", rc)("ids", ids)("runs", kind == "gmock" ? runs : 0)("failures", kind == "gmock" ? failures : 0));
  for (auto x : {".ev", ".err", ".out"}) unlink((base + x).c_str());
  return said;
}
static void frameworks(vt::Rng &g, const std::string &kind, const std::string &dir) {
  const std::uint64_t s = g.next() >> 8;
  ad::seed = s;
  const int ms = g.pick(std::vector<int>{1, 2, 3, 7, 7, 20}), ratio = g.in(1, 3);
  const bool noshrink = g.chance(25);
  T->begin(kind, vt::Obj()("fw", kind == "prefixed" ? "catch" : kind)("ms", ms)("ratio", ratio)("shrink", !noshrink)("how", kind == "gmock" ? ad::how() : ""));
  const std::string common = "max_success=" + std::to_string(ms) + " max_discard_ratio=" + std::to_string(ratio) + (noshrink ? " noshrink=1" : "");
  int rc = spawn(kind, s, common + " seed=" + std::to_string(g.next()), dir + "/child");
  const std::string said = take(dir + "/child", rc, kind);
  if (!said.empty() && kind != "gmock") {
    T->ev(vt::Obj("again"));
    rc = spawn(kind, s, common + " " + said, dir + "/child");
    take(dir + "/child", rc, kind);
  }
  T->end();
}

int main(int argc, char **argv) {
  if (argc == 5 && std::string(argv[1]) == "--child") {
    ad::seed = std::strtoull(argv[3], 0, 10);
    ad::events = std::fopen(argv[4], "w");
    return child(argv[2]);
  }
  self = argv[0];
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng g(a.seed);
  for (int i = 0; i < (a.thorough ? 400 : 60); i++) {
    for (auto k : {"gtest", "boost", "catch", "prefixed", "doctest", "gmock"}) frameworks(g, k, a.dir);
    if (i % 4 == 0) ad::optionals(g);
  }
  return 0;
}
