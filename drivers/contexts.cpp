// C06: programs of nested scopes and bindings; programs of nested executions.
#include <rapidcheck.h>
#include "rapidcheck/detail/ImplicitParam.h"
#include "rapidcheck/detail/PropertyContext.h"
#include "detail/Testing.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "vt.h"

using namespace rc;
using namespace rc::detail;

static vt::Trace *T;
struct PInt {
  using ValueType = int;
  static int defaultValue() { return 7; }
};
struct PStr { // heap allocated value
  using ValueType = std::string;
  static std::string defaultValue() { return "default of s"; }
};
struct PVec {
  using ValueType = std::vector<int>;
  static std::vector<int> defaultValue() { return {1, 2, 3}; }
};
template <typename P>
struct Name;
template <>
struct Name<PInt> {
  static const char *n() { return "i"; }
};
template <>
struct Name<PStr> {
  static const char *n() { return "s"; }
};
template <>
struct Name<PVec> {
  static const char *n() { return "v"; }
};
static void set(int &x, int v) { x = v; }
static void set(std::string &x, int v) { x = "a longer string value " + std::to_string(v); }
static void set(std::vector<int> &x, int v) { x.assign(v % 5, v); }
template <typename P>
static typename P::ValueType make(int v) {
  typename P::ValueType x{};
  set(x, v);
  return x;
}

struct Left { // logs after the object declared after it is gone
  ~Left() { T->ev(vt::Obj("leave")); }
};
template <typename P>
static void readP() {
  const typename P::ValueType v = ImplicitParam<P>::value();
  T->ev(vt::Obj("read")("p", Name<P>::n())("v", v));
}
struct Boom {
  int levels;
};

// program text: one op per character group, taken from a shared position
struct Prog {
  std::vector<int> code;
  size_t at = 0;
  int next() { return at < code.size() ? code[at++] : -1; }
};
static void block(Prog &p, int depth);
template <typename P>
static void bindP(int v, Prog &p, int depth) {
  Left left;
  const auto val = make<P>(v);
  T->ev(vt::Obj("bind")("p", Name<P>::n())("v", val));
  ImplicitParam<P> b(val);
  block(p, depth + 1);
}
template <typename P>
static void writeP(int v) {
  const auto val = make<P>(v);
  T->ev(vt::Obj("write")("p", Name<P>::n())("v", val));
  ImplicitParam<P>::value() = val;
}
static int counter = 0;
// codes: 0 end block, 1 scope, 2-4 bind i/s/v, 5-7 read, 8-10 write, 11 try block, 12 throw
static void block(Prog &p, int depth) {
  for (;;) {
    const int c = p.next();
    if (c <= 0) return;
    counter++;
    switch (c) {
    case 1: {
      if (depth > 8) break;
      Left left;
      T->ev(vt::Obj("scope"));
      ImplicitScope s;
      block(p, depth + 1);
      break;
    }
    case 2:
      if (depth <= 8) bindP<PInt>(counter, p, depth);
      break;
    case 3:
      if (depth <= 8) bindP<PStr>(counter, p, depth);
      break;
    case 4:
      if (depth <= 8) bindP<PVec>(counter, p, depth);
      break;
    case 5: readP<PInt>(); break;
    case 6: readP<PStr>(); break;
    case 7: readP<PVec>(); break;
    case 8: writeP<PInt>(counter); break;
    case 9: writeP<PStr>(counter); break;
    case 10: writeP<PVec>(counter); break;
    case 11:
      try {
        block(p, depth + 1);
      } catch (const Boom &b) {
        if (b.levels > 0) throw Boom{b.levels - 1};
      }
      break;
    case 12: throw Boom{counter % 3};
    }
  }
}
static void runProg(const std::string &name, const std::vector<int> &code) {
  // the values held by the outermost scope survive from one program to the
  // next: note them first
  T->begin(name, vt::Obj()("defaults", vt::Obj()("i", ImplicitParam<PInt>::value())("s", ImplicitParam<PStr>::value())(
                     "v", ImplicitParam<PVec>::value())));
  // inside scopes the declared defaults apply: open one so that both agree
  Prog p;
  p.code = code;
  try {
    block(p, 0);
  } catch (const Boom &) {
  }
  readP<PInt>();
  readP<PStr>();
  readP<PVec>();
  T->end();
  // restore the outermost values
  ImplicitParam<PInt>::value() = PInt::defaultValue();
  ImplicitParam<PStr>::value() = PStr::defaultValue();
  ImplicitParam<PVec>::value() = PVec::defaultValue();
}

// ------------------------------------------------------------ nested executions
static vt::Trace *C;
struct Quiet {
  bool was;
  Quiet() : was(C->open()) { C->abandon(); }
  ~Quiet() {
    if (was) C->resume();
  }
};
struct Cell { // value whose generator is given by a program
  int x;
};
static std::ostream &operator<<(std::ostream &os, const Cell &c) { return os << c.x; }

static void ctxBlock(std::shared_ptr<Prog> p, int depth);

struct Ev {
  const char *name;
  ~Ev() { C->ev(vt::Obj(name)); }
};

// pick something: the generator decides what happens while generating
static int pickNo = 0;
static void doPick(std::shared_ptr<Prog> p, int depth, int kind) {
  const std::string name = "pick" + std::to_string(++pickNo);
  bool started = false;
  Gen<int> inner = gen::just(1);
  const Random random(static_cast<uint64_t>(pickNo));
  if (kind == 0) inner = gen::exec([p, depth] {
    Ev e{"endexec"};
    C->ev(vt::Obj("exec"));
    ctxBlock(p, depth + 1);
    return 3;
  });
  else if (kind == 1) inner = gen::map(gen::just(2), [p, depth](int x) {
    ctxBlock(p, depth + 1);
    return x;
  });
  else if (kind == 3) inner = gen::mapcat(gen::inRange(0, 5), [p, depth](int) {
    return gen::exec([p, depth] {
      Ev e{"endexec"};
      C->ev(vt::Obj("exec"));
      ctxBlock(p, depth + 1);
      return 4;
    });
  });
  // generating starts with calling this generator: note it
  bool ended = false;
  const Gen<int> noted([inner, name, &started](const Random &r, int size) {
    started = true;
    C->ev(vt::Obj("pick")("name", name));
    return inner(r, size);
  });
  try {
    *noted.as(name);
    ended = true;
    C->ev(vt::Obj("picked"));
  } catch (const std::runtime_error &e) {
    if (!started) {
      if (std::string(e.what()).find("not allowed") != std::string::npos) C->ev(vt::Obj("refused"));
      else C->ev(vt::Obj("unexpected error")("what", e.what()));
    } else if (!ended) {
      C->ev(vt::Obj("picked"));
    }
    if (pickNo % 3 == 0) throw;
  } catch (...) {
    if (started) C->ev(vt::Obj("picked"));
    if (pickNo % 3 == 1) throw;
  }
}

static void doProp(std::shared_ptr<Prog> p, int depth) {
  const auto prop = toProperty([p, depth] {
    Ev e{"endprop"};
    C->ev(vt::Obj("prop"));
    ctxBlock(p, depth + 1);
  });
  const Random random(static_cast<uint64_t>(++pickNo));
  const auto d = prop(random, 10).value();
  std::vector<std::string> names;
  {
    Quiet q;
    for (auto &x : d.example()) names.push_back(x.first);
  }
  const std::string &desc = d.result.description;
  const size_t lp = desc.find("Log:\n");
  const std::string log = lp == std::string::npos ? "" : desc.substr(lp + 5);
  const bool reported = desc.find("reported") != std::string::npos;
  C->ev(vt::Obj("case")("log", log)("tags", d.tags)("picks", names)("failed", reported));
}

// codes: 0 end, 1 prop, 2 exec pick, 3 map pick, 4 plain pick, 5 mapcat-exec pick, 6 log, 7 tag, 8 fail,
//        9 direct exec, 10 try, 11 throw
static void ctxBlock(std::shared_ptr<Prog> p, int depth) {
  if (!C->open()) return; // values evaluated again for display
  for (;;) {
    const int c = p->next();
    if (c <= 0) return;
    switch (c) {
    case 1:
      if (depth < 6) doProp(p, depth);
      break;
    case 2:
      if (depth < 6) doPick(p, depth, 0);
      break;
    case 3:
      if (depth < 6) doPick(p, depth, 1);
      break;
    case 4: doPick(p, depth, 2); break;
    case 5:
      if (depth < 6) doPick(p, depth, 3);
      break;
    case 6: {
      const std::string s = "L" + std::to_string(++pickNo) + ";";
      C->ev(vt::Obj("log")("s", s));
      RC_LOG() << s;
      break;
    }
    case 7: {
      const int t = ++pickNo;
      C->ev(vt::Obj("tag")("s", std::to_string(t)));
      RC_TAG(t);
      break;
    }
    case 8:
      C->ev(vt::Obj("fail"));
      ImplicitParam<rc::detail::param::CurrentPropertyContext>::value()->reportResult(
          CaseResult(CaseResult::Type::Failure, "reported"));
      break;
    case 9:
      if (depth < 6) {
        const auto g = gen::exec([p, depth] {
          Ev e{"endexec"};
          C->ev(vt::Obj("exec"));
          ctxBlock(p, depth + 1);
          return 5;
        });
        g(Random(static_cast<uint64_t>(++pickNo)), 10).value();
      }
      break;
    case 10:
      try {
        ctxBlock(p, depth + 1);
      } catch (...) {
      }
      break;
    case 11:
      if (pickNo % 2) throw std::runtime_error("boom");
      throw 17;
    }
  }
}

static void runCtx(const std::string &name, const std::vector<int> &code) {
  C->begin(name, vt::Obj());
  auto p = std::make_shared<Prog>();
  p->code = code;
  pickNo = 0;
  while (p->at < p->code.size()) {
    try {
      ctxBlock(p, 0);
    } catch (...) {
    }
  }
  C->end();
}

// all programs of n operations drawn from ops, with 0 closing blocks anywhere
static void enumerate(const std::vector<int> &ops, int n, std::vector<int> &cur,
                      const std::function<void(const std::vector<int> &)> &f) {
  f(cur);
  if (n == 0) return;
  for (int o : ops) {
    cur.push_back(o);
    enumerate(ops, n - 1, cur, f);
    cur.pop_back();
  }
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Rng rng(a.seed);
  {
    vt::Trace t(a.dir, "trace", 3);
    T = &t;
    std::vector<int> cur;
    enumerate({0, 1, 3, 6, 9, 12}, a.thorough ? 5 : 4, cur, [&](const std::vector<int> &c) {
      std::vector<int> code{11};
      code.insert(code.end(), c.begin(), c.end());
      code.push_back(6);
      runProg("enumerated", code);
    });
    const int n = a.thorough ? 6000 : 1200;
    for (int i = 0; i < n; i++) {
      std::vector<int> code;
      const int len = rng.in(5, a.thorough ? 80 : 45);
      for (int k = 0; k < len; k++) {
        static const std::vector<int> w{0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 5, 6, 7, 8, 9, 10, 11, 12};
        code.push_back(rng.pick(w));
      }
      runProg("random", code);
    }
  }
  {
    vt::Trace t(a.dir, "ctx", 2);
    C = &t;
    std::vector<int> cur;
    std::ostringstream sink;
    auto *old = std::cerr.rdbuf(sink.rdbuf());
    enumerate({0, 1, 2, 3, 4, 6, 9}, a.thorough ? 5 : 4, cur, [&](const std::vector<int> &c) {
      std::vector<int> code{1};
      code.insert(code.end(), c.begin(), c.end());
      code.push_back(4);
      code.push_back(6);
      if (c.size() >= 3 || c.size() == 0) runCtx("enumerated", code);
    });
    const int n = a.thorough ? 4000 : 1200;
    for (int i = 0; i < n; i++) {
      std::vector<int> code;
      const int len = rng.in(4, 40);
      for (int k = 0; k < len; k++) {
        static const std::vector<int> w{0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 6, 6, 7, 7, 8, 9, 10, 11};
        code.push_back(rng.pick(w));
      }
      runCtx("random", code);
    }
    std::cerr.rdbuf(old);
  }
  return 0;
}
