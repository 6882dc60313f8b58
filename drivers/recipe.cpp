// C07: bodies with data dependent picks, walked through their shrink trees.
#include <rapidcheck.h>
#include "rapidcheck/gen/detail/ExecRaw.h"
#include "vt.h"

using namespace rc;
using namespace rc::detail;

static vt::Trace *T;

struct Val {
  int s = 0;
  uint64_t r = 0;
  std::vector<int> p;
};
static vt::J toJ(const Val &v) { return vt::js(vt::Obj()("s", v.s)("r", vt::u64(v.r))("p", v.p)); }
static std::string text(const Val &v) {
  std::string t = std::to_string(v.s) + "/" + std::to_string(v.r);
  for (int x : v.p) t += "/" + std::to_string(x);
  return t;
}
std::ostream &operator<<(std::ostream &os, const Val &v) { return os << text(v); }
static bool parse(const std::string &t, Val &v) {
  v = Val();
  char *e;
  v.s = int(std::strtol(t.c_str(), &e, 10));
  if (e == t.c_str() || *e != '/') return false;
  const char *b = e + 1;
  v.r = std::strtoull(b, &e, 10);
  if (e == b) return false;
  while (*e == '/') {
    b = e + 1;
    v.p.push_back(int(std::strtol(b, &e, 10)));
    if (e == b) return false;
  }
  return *e == 0;
}

struct Site {
  int width, depth;
  std::string badroot, badchild;
};
struct Config {
  std::vector<Site> sites; // 1-based in the trace
  uint64_t script;
  int maxPicks;
  bool args; // the first pick is the argument of the property
  bool mayThrow;
};
static Config K;

static void raise(const std::string &how) {
  if (how == "generation failure") throw GenerationFailure("gf");
  if (how == "exception") throw std::runtime_error("ex");
  if (how == "other") throw 11;
}
static std::string badOf(const Val &v) {
  const Site &st = K.sites[v.s - 1];
  if (v.p.empty()) return st.badroot;
  return v.p.back() == 2 ? st.badchild : "";
}
static Shrinkable<Val> node(const Val &v) {
  return shrinkable::lambda(
      [v] {
        raise(badOf(v));
        return v;
      },
      [v] {
        const Site &st = K.sites[v.s - 1];
        const int n = int(v.p.size()) < st.depth ? std::max(0, st.width - int(v.p.size())) : 0;
        std::vector<Shrinkable<Val>> out;
        for (int c = 1; c <= n; c++) {
          Val w = v;
          w.p.push_back(c);
          out.push_back(node(w));
        }
        return seq::fromContainer(std::move(out));
      });
}
static Gen<Val> siteGen(int s) {
  return Gen<Val>([s](const Random &random, int size) -> Shrinkable<Val> {
    Random c(random);
    Val v;
    v.s = s;
    v.r = c.next();
    T->ev(vt::Obj("gen")("s", s)("r", vt::u64(v.r))("size", size));
    if (!K.sites[s - 1].badroot.empty() && s % 2) raise(K.sites[s - 1].badroot); // throws while generating
    if (!K.sites[s - 1].badroot.empty()) // or when asked for the value
      return shrinkable::lambda([v]() -> Val {
        raise(badOf(v));
        return v;
      });
    return node(v);
  });
}
namespace rc {
template <>
struct Arbitrary<Val> {
  static Gen<Val> arbitrary() { return siteGen(1); }
};
} // namespace rc

static uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xBF58476D1CE4E5B9ULL;
  return h ^ (h >> 29);
}
// the body: picks decided by what was picked before
static std::vector<Val> body(std::vector<Val> got, uint64_t h0) {
  uint64_t h = h0;
  auto take = [&](const Val &v) {
    h = mix(h, v.s);
    h = mix(h, v.p.size());
    for (int x : v.p) h = mix(h, x);
    if (K.script % 3 == 0) h = mix(h, v.r);
  };
  for (auto &v : got) take(v);
  for (int i = int(got.size()); i < K.maxPicks; i++) {
    h = mix(h, 77);
    if (h % 7 == 0) break;
    const int first = K.args ? 2 : 1;
    const int s = first + int((h >> 8) % (K.sites.size() - (first - 1)));
    try {
      // unnamed picks on odd sites
      const Val v = s % 2 ? *siteGen(s) : *siteGen(s).as("site " + std::to_string(s));
      T->ev(vt::Obj("pick")("v", toJ(v)));
      got.push_back(v);
      take(v);
    } catch (const GenerationFailure &) {
      T->ev(vt::Obj("failed")("s", s)("how", "generation failure"));
      h = mix(h, 1);
      if (h % 2) throw;
    } catch (const std::runtime_error &) {
      T->ev(vt::Obj("failed")("s", s)("how", "exception"));
      h = mix(h, 2);
      if (h % 2) throw;
    } catch (int) {
      T->ev(vt::Obj("failed")("s", s)("how", "other"));
      h = mix(h, 3);
      if (h % 2) throw;
    }
  }
  if (K.mayThrow && (h >> 20) % 4 == 0) throw std::runtime_error("body");
  return got;
}

struct Runner {
  virtual ~Runner() {}
  virtual void run(int n) = 0;              // evaluates node n
  virtual int shrinks(int n, int total) = 0; // number of shrinks, which become nodes total+1..
};

static vt::J noExample() { return vt::J("[]"); }

struct ExecRunner : Runner {
  std::vector<Shrinkable<std::vector<Val>>> nodes;
  explicit ExecRunner(const Random &r, int size) {
    nodes.push_back(gen::exec([] { return body({}, K.script); })(r, size));
  }
  void run(int n) override {
    bool ok = true;
    std::vector<Val> got;
    try {
      got = nodes[n - 1].value();
    } catch (...) {
      ok = false;
    }
    std::string g;
    for (auto &v : got) g += (g.empty() ? "" : ",") + toJ(v).s;
    T->ev(vt::Obj("ran")("ok", ok)("got", vt::J("[" + g + "]"))("example", noExample()));
  }
  int shrinks(int n, int) override {
    T->abandon();
    auto seq = vt::reader(nodes[n - 1].shrinks());
    int k = 0;
    while (auto s = seq.next()) {
      nodes.push_back(*s);
      if (++k > 3000) break;
    }
    T->resume();
    return k;
  }
};

struct PropRunner : Runner {
  std::vector<Shrinkable<CaseDescription>> nodes;
  std::vector<Val> last;
  PropRunner(const Random &r, int size) {
    auto report = [this](const std::vector<Val> &g) { last = g; };
    if (K.args)
      nodes.push_back(toProperty([=](const Val &v) {
        T->ev(vt::Obj("pick")("v", toJ(v)));
        report(body({v}, K.script));
      })(r, size));
    else
      nodes.push_back(toProperty([=] { report(body({}, K.script)); })(r, size));
  }
  void run(int n) override {
    last.clear();
    const auto d = nodes[n - 1].value();
    // picked values are known only when the body finished
    const bool finished = d.result.type == CaseResult::Type::Success;
    T->abandon();
    const auto ex = d.example();
    T->resume();
    std::string out, g;
    for (auto &e : ex) {
      out += out.empty() ? "" : ",";
      Val v;
      std::string t = e.second, open, close;
      if (t.size() > 1 && t[0] == '(' && t.back() == ')') {
        open = "(";
        close = ")";
        t = t.substr(1, t.size() - 2);
      }
      if (parse(t, v))
        out += "[" + vt::esc(e.first) + "," + vt::esc(open) + "," + toJ(v).s + "," + vt::esc(close) + "]";
      else
        out += "[" + vt::esc(e.first) + "," + vt::esc(e.second) + "]";
    }
    for (auto &v : last) g += (g.empty() ? "" : ",") + toJ(v).s;
    vt::Obj o("ran");
    o("ok", true);
    if (finished) o("got", vt::J("[" + g + "]"));
    o("finished", finished)("example", vt::J("[" + out + "]"));
    T->ev(o);
  }
  int shrinks(int n, int) override {
    T->abandon();
    auto seq = vt::reader(nodes[n - 1].shrinks());
    int k = 0;
    while (auto s = seq.next()) {
      nodes.push_back(*s);
      if (++k > 3000) break;
    }
    T->resume();
    return k;
  }
};

static void scenario(const std::string &kind, vt::Rng &rng, bool thorough) {
  const int size = rng.in(0, 100);
  std::vector<int> widths, depths;
  std::vector<std::string> badroot, badchild, names, open, close;
  for (size_t i = 0; i < K.sites.size(); i++) {
    const Site &s = K.sites[i];
    widths.push_back(s.width);
    depths.push_back(s.depth);
    badroot.push_back(s.badroot);
    badchild.push_back(s.badchild);
    const bool arg = K.args && i == 0;
    names.push_back(arg ? "std::tuple<Val>" : i % 2 ? "site " + std::to_string(i + 1) : "Val");
    open.push_back(arg ? "(" : "");
    close.push_back(arg ? ")" : "");
  }
  T->begin(kind, vt::Obj()("kind", kind)("size", size)("widths", widths)("depths", depths)("badroot", badroot)(
                     "badchild", badchild)("names", names)("open", open)("close", close));
  const Random random(rng.next());
  std::unique_ptr<Runner> r;
  if (kind == "exec") r.reset(new ExecRunner(random, size));
  else r.reset(new PropRunner(random, size));
  int total = 1, events = 0;
  auto run = [&](int n) {
    T->ev(vt::Obj("run")("n", n));
    r->run(n);
    events++;
  };
  run(1);
  std::vector<int> older{1};
  int at = 1;
  for (int depth = 0; depth < 7 && events < (thorough ? 200 : 90); depth++) {
    if (rng.chance(25)) run(at); // again
    const int k = r->shrinks(at, total);
    std::vector<int> ids;
    for (int i = 1; i <= k; i++) ids.push_back(total + i);
    T->ev(vt::Obj("shrinks")("n", at)("ids", ids));
    total += k;
    if (k == 0) break;
    // candidates are asked in any order, some not at all
    const int m = std::min(k, rng.in(1, 12));
    int accepted = ids[0];
    for (int i = 0; i < m; i++) {
      accepted = rng.chance(60) ? ids[i] : rng.pick(ids);
      run(accepted);
      older.push_back(accepted);
    }
    if (rng.chance(30)) run(rng.pick(older));
    at = accepted;
  }
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 4);
  T = &t;
  vt::Rng rng(a.seed);
  const int n = a.thorough ? 6000 : 700;
  for (int i = 0; i < n; i++) {
    K = Config();
    const int sites = rng.in(2, 5);
    const bool faults = rng.chance(35);
    K.args = false;
    for (int s = 0; s < sites; s++) {
      Site st;
      st.width = rng.in(0, 4);
      st.depth = rng.in(0, 4);
      if (faults && rng.chance(25))
        st.badroot = rng.pick(std::vector<std::string>{"generation failure", "exception", "other"});
      else if (faults && rng.chance(40))
        st.badchild = rng.pick(std::vector<std::string>{"generation failure", "exception", "other"});
      K.sites.push_back(st);
    }
    K.script = rng.next();
    K.maxPicks = rng.in(0, 7);
    const bool exec = rng.chance(45);
    K.mayThrow = rng.chance(25);
    if (!exec && rng.chance(40)) {
      K.args = true;
      K.maxPicks = std::max(1, K.maxPicks);
      K.sites[0].badroot = K.sites[0].badchild = "";
    }
    scenario(exec ? "exec" : "prop", rng, a.thorough);
  }
  return 0;
}
