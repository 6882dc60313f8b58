// C11: stateful testing. Commands over a numeric model with logged generation,
// every shrink of generated sequences, runs, state::check and execOneOf.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <memory>
#include "vt.h"

using namespace rc;

static vt::Trace *T;
static int PRE, PF, APP, RUN, SIZE;
static bool NOERR;
static uint64_t SALT;

struct TooMuch {};
struct LeafError : std::runtime_error {
  LeafError() : std::runtime_error("leaf") {}
};

static bool pre(int k, int v, int s) {
  switch (PRE) {
  case 0: return true;
  case 1: return (s + v) % 3 != 0;
  case 2: return k == 0 ? s % 2 == 0 : v <= s;
  case 3: return s < 9 && (k != 2 || s != 0);
  case 4: return (s + k + v) % 4 == 1 || s == 0;
  default: return false;
  }
}
static int next(int k, int v, int s) { return (3 * s + 5 * k + v + 1) % 17; }

struct CopyModel {
  int s = 0;
  explicit CopyModel(int x = 0) : s(x) {}
};
struct MoveModel {
  int s = 0;
  explicit MoveModel(int x = 0) : s(x) {}
  MoveModel(MoveModel &&) = default;
  MoveModel &operator=(MoveModel &&) = default;
  MoveModel(const MoveModel &) = delete;
  MoveModel &operator=(const MoveModel &) = delete;
};
struct Sut {
  int n = 0;
  std::vector<std::string> runs;
};

static bool appBad(int v, int s) { return APP && (s + v) % 5 == 4; }
static bool preBad(int k, int v, int s) { return PF && (s + 2 * k + v) % 7 == 6; }
template <typename M>
struct KV : state::Command<M, Sut> {
  int k, v;
  KV(int a, int b) : k(a), v(b) {}
  void checkPreconditions(const M &m) const override {
    if (preBad(k, v, m.s)) {
      if (PF == 2) RC_FAIL("pre");
      throw LeafError();
    }
    RC_PRE(pre(k, v, m.s));
  }
  void apply(M &m) const override {
    if (appBad(v, m.s)) {
      if (APP == 1) RC_DISCARD("apply");
      if (APP == 2) RC_FAIL("apply");
      throw LeafError();
    }
    m.s = next(k, v, m.s);
  }
  void run(const M &m, Sut &sut) const override {
    sut.runs.push_back("[[" + std::to_string(k) + "," + std::to_string(v) + "]," + std::to_string(m.s) + "," +
                       std::to_string(sut.n) + "]");
    sut.n++;
    if (RUN && (m.s + k + v) % 6 == 5) RC_FAIL("run");
  }
  void show(std::ostream &os) const override { os << "<" << k << "," << v << ">"; }
};
template <typename M>
using SP = std::shared_ptr<const state::Command<M, Sut>>;

static std::vector<int> children(int x) {
  std::vector<int> r;
  if (x <= 0) return r;
  r.push_back(0);
  if (x / 2 > 0) r.push_back(x / 2);
  if (x - 1 > x / 2) r.push_back(x - 1);
  return r;
}
template <typename M>
struct CmdShrinkable {
  std::string out;
  int k, v;
  SP<M> value() const {
    if (out == "gf") throw GenerationFailure("gf");
    if (out == "d") RC_DISCARD("d");
    if (out == "f") RC_FAIL("f");
    if (out == "e") throw LeafError();
    return std::make_shared<KV<M>>(k, v);
  }
  Seq<Shrinkable<SP<M>>> shrinks() const {
    std::vector<Shrinkable<SP<M>>> r;
    if (out == "c")
      for (int y : children(v)) r.push_back(makeShrinkable<CmdShrinkable<M>>(CmdShrinkable<M>{"c", k, y}));
    return seq::fromContainer(std::move(r));
  }
};

struct Try {
  int s, r, size;
};
static std::vector<Random> RIDS;
static std::vector<Try> TRIES;
static int rid(const Random &r) {
  for (size_t i = 0; i < RIDS.size(); i++)
    if (RIDS[i] == r) return int(i) + 1;
  RIDS.push_back(r);
  return int(RIDS.size());
}
template <typename M>
static Gen<SP<M>> cmdGen(const M &m) {
  const int s = m.s;
  return [=](const Random &random, int size) -> Shrinkable<SP<M>> {
    Random r = random;
    uint64_t h = (r.next() ^ SALT) + uint64_t(s) * 0x9e3779b97f4a7c15ULL;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ULL;
    h ^= h >> 32;
    CmdShrinkable<M> c{"c", int(h % 3), int((h >> 8) % 6)};
    int x = (h >> 16) % 40;
    if (x < 3) c.out = "gf";
    else if (x < 6) c.out = "d";
    else if (x == 6 && !NOERR && (h >> 24) % 4 == 0) c.out = (h >> 26) % 2 ? "e" : "f";
    if (T->open()) {
      int id = rid(random);
      bool known = false;
      for (auto &t : TRIES) known = known || (t.s == s && t.r == id && t.size == size);
      if (!known) {
        if (TRIES.size() > 1500) throw TooMuch();
        TRIES.push_back({s, id, size});
        T->ev(vt::Obj("try")("s", s)("r", id)("size", size)(
            "out", vt::J(c.out == "c" ? "[\"c\"," + std::to_string(c.k) + "," + std::to_string(c.v) + "]"
                                      : "[" + vt::esc(c.out) + "]")));
      }
    }
    return makeShrinkable<CmdShrinkable<M>>(c);
  };
}

template <typename M>
static std::string kvs(const state::Commands<state::Command<M, Sut>> &cs) {
  std::string o = "[";
  for (auto &c : cs) {
    auto p = static_cast<const KV<M> *>(c.get());
    if (o.size() > 1) o += ",";
    o += "[" + std::to_string(p->k) + "," + std::to_string(p->v) + "]";
  }
  return o + "]";
}
template <typename M>
static std::string value(const Shrinkable<state::Commands<state::Command<M, Sut>>> &s) {
  try {
    return kvs<M>(s.value());
  } catch (const GenerationFailure &) {
    return "[[\"gf\"]]";
  } catch (const LeafError &) {
    return "[[\"e\"]]";
  } catch (const TooMuch &) {
    throw;
  } catch (const rc::detail::CaseResult &r) {
    return r.type == rc::detail::CaseResult::Type::Failure ? "[[\"f\"]]" : "[[\"?\"]]";
  } catch (...) {
    return "[[\"?\"]]";
  }
}

// state::gen::commands for the two ways of giving the initial state
static Gen<state::Commands<state::Command<CopyModel, Sut>>> commandsFor(CopyModel *, bool callable) {
  if (callable) return state::gen::commands([] { return CopyModel(); }, &cmdGen<CopyModel>);
  return state::gen::commands(CopyModel(), [](const CopyModel &m) { return cmdGen(m); });
}
static Gen<state::Commands<state::Command<MoveModel, Sut>>> commandsFor(MoveModel *, bool) {
  return state::gen::commands([] { return MoveModel(); }, [](const MoveModel &m) { return cmdGen(m); });
}

template <typename M>
static void tree(vt::Rng &rng, const char *name, bool callable, int maxSize, int kidLimit) {
  PRE = rng.below(14) == 0 ? 5 : rng.below(5);
  PF = rng.below(5) == 0 ? rng.in(2, 3) : 0;
  APP = rng.below(4) == 0 ? rng.in(1, 3) : 0;
  RUN = 0;
  SIZE = rng.below(10) == 0 ? 0 : rng.below(maxSize + 1);
  NOERR = rng.below(3) != 0;
  SALT = rng.next();
  RIDS.clear();
  TRIES.clear();
  T->begin(name, vt::Obj()("mode", "tree")("pre", PRE)("pf", PF)("app", APP)("run", RUN)("size", SIZE));
  try {
    using S = Shrinkable<state::Commands<state::Command<M, Sut>>>;
    auto gen = commandsFor(static_cast<M *>(nullptr), callable);
    S cur = gen(Random(rng.next()), SIZE);
    T->ev(vt::Obj("gen")("cmds", vt::J(value<M>(cur))));
    int steps = 6;
    while (steps-- > 0) {
      std::string kids = "[", v = value<M>(cur);
      int n = 0;
      bool more = false;
      auto ks = vt::reader(cur.shrinks());
      std::vector<S> list;
      while (auto k = ks.next()) {
        if (n++ >= kidLimit) {
          more = true;
          break;
        }
        list.push_back(*k);
        kids += (kids.size() > 1 ? "," : "") + value<M>(*k);
      }
      T->ev(vt::Obj("node")("cmds", vt::J(v))("kids", vt::J(kids + "]"))("more", more));
      if (list.empty()) break;
      int i = rng.below(3) == 0 ? int(list.size()) - 1 - rng.below(std::min<int>(3, int(list.size()))) : rng.below(list.size());
      T->ev(vt::Obj("down")("i", i + 1));
      cur = list[i];
    }
    T->end();
  } catch (const TooMuch &) {
    T->abandon();
  }
  T->resume();
}

template <typename M>
static state::Commands<state::Command<M, Sut>> randomCmds(vt::Rng &rng, int n) {
  state::Commands<state::Command<M, Sut>> cs;
  int s = 0;
  for (int i = 0; i < n; i++) {
    int k = rng.below(3), v = rng.below(6);
    for (int t = 0; t < 30 && rng.below(12) && !(pre(k, v, s) && !preBad(k, v, s) && !appBad(v, s)); t++)
      k = rng.below(3), v = rng.below(6);
    cs.push_back(std::make_shared<KV<M>>(k, v));
    s = next(k, v, s);
  }
  return cs;
}
static std::string list(const std::vector<std::string> &v) {
  std::string o = "[";
  for (auto &x : v) o += (o.size() > 1 ? "," : "") + x;
  return o + "]";
}
template <typename F>
static std::string outcome(F f) {
  try {
    return f();
  } catch (const rc::detail::CaseResult &r) {
    return r.type == rc::detail::CaseResult::Type::Discard ? "discard"
           : r.type == rc::detail::CaseResult::Type::Failure ? "fail" : "success";
  } catch (...) {
    return "error";
  }
}
template <typename M>
static void runOps(vt::Rng &rng, const char *name, bool callable);
static void opsFor(CopyModel *, const state::Commands<state::Command<CopyModel, Sut>> &cs, bool callable) {
  const CopyModel init;
  Sut sut;
  std::string r = outcome([&] {
    if (callable) state::runAll(cs, [&] { return init; }, sut);
    else state::runAll(cs, init, sut);
    return "ok";
  });
  T->ev(vt::Obj("op")("op", "runAll")("cmds", vt::J(kvs<CopyModel>(cs)))("runs", vt::J(list(sut.runs)))("res", r)("s", init.s));
  r = outcome([&] {
    return (callable ? state::isValidSequence(cs, [&] { return init; }) : state::isValidSequence(cs, init)) ? "yes" : "no";
  });
  T->ev(vt::Obj("op")("op", "isValidSequence")("cmds", vt::J(kvs<CopyModel>(cs)))("runs", vt::J("[]"))("res", r)("s", init.s));
}
static void opsFor(MoveModel *, const state::Commands<state::Command<MoveModel, Sut>> &cs, bool) {
  Sut sut;
  auto init = [] { return MoveModel(); };
  std::string r = outcome([&] {
    state::runAll(cs, init, sut);
    return "ok";
  });
  T->ev(vt::Obj("op")("op", "runAll")("cmds", vt::J(kvs<MoveModel>(cs)))("runs", vt::J(list(sut.runs)))("res", r)("s", 0));
  r = outcome([&] { return state::isValidSequence(cs, init) ? "yes" : "no"; });
  T->ev(vt::Obj("op")("op", "isValidSequence")("cmds", vt::J(kvs<MoveModel>(cs)))("runs", vt::J("[]"))("res", r)("s", 0));
}
static void nextStateFor(const CopyModel &m, const state::Command<CopyModel, Sut> &c, const std::string &cmds) {
  int n = -1;
  if (APP) return;
  n = c.nextState(m).s;
  T->ev(vt::Obj("op")("op", "nextState")("cmds", vt::J(cmds))("runs", vt::J("[]"))("res", "")("s", m.s)("next", n));
}
static void nextStateFor(const MoveModel &, const state::Command<MoveModel, Sut> &, const std::string &) {}
template <typename M>
static void runOps(vt::Rng &rng, const char *name, bool callable) {
  PRE = rng.below(5);
  PF = rng.below(4) == 0 ? rng.in(2, 3) : 0;
  APP = rng.below(3) == 0 ? rng.in(1, 3) : 0;
  RUN = rng.below(2);
  auto cs = randomCmds<M>(rng, rng.below(8));
  int at = rng.below(17);
  T->begin(name, vt::Obj()("mode", "run")("pre", PRE)("pf", PF)("app", APP)("run", RUN)("at", at));
  opsFor(static_cast<M *>(nullptr), cs, callable);
  M m;
  Sut sut;
  std::string r = outcome([&] {
    state::applyAll(cs, m);
    return "ok";
  });
  T->ev(vt::Obj("op")("op", "applyAll")("cmds", vt::J(kvs<M>(cs)))("runs", vt::J("[]"))("res", r)("s", m.s));
  std::ostringstream os;
  rc::state::showValue(cs, os);
  T->ev(vt::Obj("op")("op", "show")("cmds", vt::J(kvs<M>(cs)))("text", os.str()));
  if (!cs.empty()) {
    M am(at);
    state::Commands<state::Command<M, Sut>> one{cs[0]};
    r = outcome([&] { return state::isValidCommand(*cs[0], am) ? "yes" : "no"; });
    T->ev(vt::Obj("op")("op", "isValidCommand")("cmds", vt::J(kvs<M>(one)))("runs", vt::J("[]"))("res", r)("s", am.s));
    nextStateFor(am, *cs[0], kvs<M>(one));
  }
  T->end();
}

// commands that override nothing
struct PlainCommand : state::Command<CopyModel, Sut> {};
namespace deep {
struct Plain2 : state::Command<CopyModel, Sut> {
  int x = 3;
};
}
template <typename C>
static void plain(vt::Rng &rng, const char *name) {
  T->begin("plain", vt::Obj()("mode", "plain")("pre", 0)("pf", 0)("app", 0)("run", 0));
  CopyModel m(rng.below(100));
  Sut sut;
  std::shared_ptr<const state::Command<CopyModel, Sut>> c = std::make_shared<C>();
  CopyModel after(m);
  state::Commands<state::Command<CopyModel, Sut>> cs{c, c, c};
  state::applyAll(cs, after);
  bool ran = true;
  try {
    state::runAll(cs, m, sut);
  } catch (...) {
    ran = false;
  }
  std::ostringstream os;
  showValue(*c, os);
  T->ev(vt::Obj("plain")("s", m.s)("valid", state::isValidCommand(*c, m))("next", c->nextState(m).s)("after", after.s)(
      "ran", ran && sut.n == 0 && sut.runs.empty())("text", os.str())("name", name));
  T->end();
}

// cases of a property that consists of state::check
static void checkBody(CopyModel *, Sut &sut, bool callable) {
  if (callable) state::check([] { return CopyModel(); }, sut, &cmdGen<CopyModel>);
  else state::check(CopyModel(), sut, [](const CopyModel &m) { return cmdGen(m); });
}
static void checkBody(MoveModel *, Sut &sut, bool) {
  state::check([] { return MoveModel(); }, sut, [](const MoveModel &m) { return cmdGen(m); });
}
template <typename M>
static void checkCases(vt::Rng &rng, const char *name, bool callable) {
  PRE = rng.below(5);
  PF = rng.below(6) == 0 ? rng.in(2, 3) : 0;
  APP = rng.below(6) == 0 ? rng.in(1, 3) : 0;
  RUN = 1;
  SIZE = rng.below(7);
  NOERR = true;
  SALT = rng.next();
  std::vector<std::string> evs;
  auto runs = std::make_shared<std::vector<std::string>>();
  auto prop = rc::detail::toProperty([=] {
    Sut sut;
    runs->clear();
    struct Keep {
      Sut &s;
      std::vector<std::string> &r;
      ~Keep() { r = s.runs; }
    } keep{sut, *runs};
    checkBody(static_cast<M *>(nullptr), sut, callable);
  });
  T->begin(name, vt::Obj()("mode", "check")("pre", PRE)("pf", PF)("app", APP)("run", RUN)("size", SIZE));
  bool first = true;
  auto record = [&](const Shrinkable<rc::detail::CaseDescription> &s) {
    runs->clear();
    T->abandon(); // tries are not followed here
    auto d = s.value();
    std::string cmds = "[]";
    std::string res = d.result.type == rc::detail::CaseResult::Type::Failure ? "fail"
                      : d.result.type == rc::detail::CaseResult::Type::Discard ? "discard" : "ok";
    rc::detail::Example ex;
    if (d.example) ex = d.example();
    T->resume();
    // "<k,v>\n<k,v>\n"
    std::string text = ex.size() == 1 ? ex[0].second : "";
    cmds = "[";
    if (text.find('?') != std::string::npos) text.clear(); // no sequence was made
    for (size_t p = 0; (p = text.find('<', p)) != std::string::npos; p++) {
      size_t q = text.find('>', p);
      cmds += (cmds.size() > 1 ? "," : "") + ("[" + text.substr(p + 1, q - p - 1) + "]");
    }
    cmds += "]";
    if (cmds == "[]" && (res == "discard" || (res == "fail" && (PF || APP > 1)))) res = "nogen";
    T->ev(vt::Obj("case")("first", first)("cmds", vt::J(cmds))("runs", vt::J(list(*runs)))("res", res));
    return d.result.type == rc::detail::CaseResult::Type::Failure;
  };
  auto cur = prop(Random(rng.next()), SIZE);
  record(cur);
  first = false;
  for (int step = 0; step < 4; step++) {
    T->abandon();
    auto ks = vt::reader(cur.shrinks());
    T->resume();
    std::vector<decltype(cur)> l;
    int n = 0;
    while (n++ < 25) {
      T->abandon();
      auto k = ks.next();
      T->resume();
      if (!k) break;
      record(*k);
      l.push_back(*k);
    }
    if (l.empty()) break;
    cur = l[rng.below(l.size())];
  }
  T->end();
}

// commands chosen by execOneOf: A and C take the state, B and D take nothing
static std::string MADE;
struct Res {
  int k;
  std::string form, args;
};
struct M2 {
  int s = 0;
};
struct CmdBase : state::Command<M2, Sut> {
  Res res;
  int pick = 0;
};
template <int K>
struct TakesState : CmdBase {
  explicit TakesState(const M2 &m) {
    res = {K, "args", "[" + std::to_string(m.s) + "]"};
    pick = *gen::inRange(0, 5);
  }
};
template <int K>
struct TakesNone : CmdBase {
  TakesNone() {
    res = {K, "none", "[]"};
    pick = *gen::inRange(0, 5);
  }
};
template <int K>
struct TakesTwo : CmdBase {
  TakesTwo(int a, const std::string &b) {
    res = {K, "args", "[" + std::to_string(a) + "," + vt::esc(b) + "]"};
    pick = *gen::inRange(0, 5);
  }
};
template <int K>
struct Both : CmdBase {
  Both() { res = {K, "none", "[]"}; }
  explicit Both(const M2 &m) { res = {K, "args", "[" + std::to_string(m.s) + "]"}; }
};
template <typename Mod>
using SPC = std::shared_ptr<const state::Command<Mod, Sut>>;
static void picks(vt::Rng &rng, const char *name, int kinds, std::vector<int> takes, std::string args,
                  const Gen<std::shared_ptr<const state::Command<M2, Sut>>> &gen) {
  T->begin(name, vt::Obj()("mode", "oneof")("pre", 0)("pf", 0)("app", 0)("run", 0)("kinds", kinds)("takes", takes)("args", vt::J(args)));
  for (int i = 0; i < 60 * kinds; i++) {
    auto s = gen(Random(rng.next()), int(rng.below(20)));
    auto v = std::static_pointer_cast<const CmdBase>(s.value());
    std::vector<int> kids;
    auto ks = vt::reader(s.shrinks());
    while (auto k = ks.next()) kids.push_back(std::static_pointer_cast<const CmdBase>(k->value())->res.k);
    T->ev(vt::Obj("pick")("k", v->res.k)("form", v->res.form)("args", vt::J(v->res.args))("kids", kids));
  }
  T->ev(vt::Obj("all"));
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng rng(a.seed);
  const int n = a.thorough ? 500 : 90;
  for (int i = 0; i < n; i++) {
    bool callable = i % 2;
    int maxSize = i % 7 == 0 ? 9 : 5;
    tree<CopyModel>(rng, "commands", callable, maxSize, 60);
    tree<MoveModel>(rng, "commands-moveonly", true, maxSize, 60);
    for (int j = 0; j < 4; j++) {
      runOps<CopyModel>(rng, "run", j % 2);
      runOps<MoveModel>(rng, "run-moveonly", true);
    }
    checkCases<CopyModel>(rng, "check", callable);
    checkCases<MoveModel>(rng, "check-moveonly", true);
  }
  plain<PlainCommand>(rng, "PlainCommand");
  plain<deep::Plain2>(rng, "deep::Plain2");
  for (int i = 0; i < 3; i++) {
    M2 m;
    m.s = int(rng.below(100));
    std::string arg = "[" + std::to_string(m.s) + "]";
    picks(rng, "execOneOf1", 1, {1}, arg, state::gen::execOneOf<TakesState<1>>(m));
    picks(rng, "execOneOf4", 4, {1, 3, 4}, arg,
          state::gen::execOneOf<TakesState<1>, TakesNone<2>, TakesState<3>, Both<4>>(m));
    picks(rng, "execOneOfWithArgs3", 3, {2}, "[" + std::to_string(i) + ",\"xy\"]",
          state::gen::execOneOfWithArgs<TakesNone<1>, TakesTwo<2>, TakesNone<3>>()(i, std::string("xy")));
    picks(rng, "execOneOfWithArgs0", 2, {}, "[]", state::gen::execOneOfWithArgs<TakesNone<1>, TakesNone<2>>()());
    picks(rng, "execOneOfWithArgsState", 3, {1, 3}, arg,
          state::gen::execOneOfWithArgs<TakesState<1>, TakesNone<2>, Both<3>>()(m));
  }
  return 0;
}
