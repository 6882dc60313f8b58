// Handles that share objects, copied, used and destroyed from different threads at
// once (property C16). Built with the thread sanitizer.
#define PROBE_LIGHT 1
#include "vt.h"

#include <atomic>
#include <memory>
#include <thread>

#include <rapidcheck.h>
#include "probe.h"
#include "handlekit.h"


template <typename F>
static void inThreads(int n, F f) {
  std::atomic<int> ready(0);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      ready.fetch_add(1);
      while (ready.load() < n) std::this_thread::yield();
      f(i);
    });
  for (auto &t : ts) t.join();
}

// Each thread runs its own sequence of operations: it has its own slots, and reads
// the two generators and shrinkables that all threads have.
static void sequences(vt::Trace &t, vt::Rng &g, int nthreads, int steps) {
  std::vector<std::vector<Op>> ops(nthreads);
  std::vector<std::uint64_t> seeds;
  for (int i = 0; i < nthreads; i++) seeds.push_back(g.next());
  std::vector<Op> mk;
  bool early = g.chance(50);
  {
    std::unique_ptr<Handles> common(new Handles(2));
    for (int i = 0; i < 4; i++) {
      Op o;
      o.op = "new";
      o.k = i < 2 ? "gen" : "shr";
      o.i = i % 2;
      o.p = g.in(1, 9);
      common->run(o);
      o.i += 4;
      mk.push_back(o);
    }
    std::vector<std::unique_ptr<Handles>> ms;
    for (int i = 0; i < nthreads; i++) ms.emplace_back(new Handles(3));
    inThreads(nthreads, [&](int i) {
      vt::Rng r(seeds[i]);
      Handles &m = *ms[i];
      m.common = common.get();
      for (int k = 0; k < steps; k++) {
        Op o = m.random(r);
        m.run(o);
        ops[i].push_back(o);
      }
    });
    // the common handles go before those of the threads, which go all at once
    if (early) common.reset();
    inThreads(nthreads, [&](int i) { ms[i]->clear(); });
  }
  const long left = Light::count().load();
  for (int i = 0; i < nthreads; i++) {
    t.begin("threads", vt::Obj()("threads", nthreads)("thread", i));
    for (auto *v : {&mk, &ops[i]})
      for (auto &o : *v) {
        vt::Obj e = opJ(o);
        e("n", false)("live", vt::J("[]"))("shells", 0);
        t.ev(e);
      }
    if (Light::bad().load()) t.ev(vt::Obj("other")("what", "object used or destroyed that is not alive"));
    t.ev(vt::Obj("gone")("n", int(left)));
    t.end();
  }
}

// The last owners give an object up at the same time, many times over.
template <typename H>
static void handoff(vt::Trace &t, const char *name, H (*make)(int), int (*use)(const H &), int nthreads, int rounds) {
  t.begin("handoff", vt::Obj()("kind", name)("threads", nthreads));
  std::vector<std::unique_ptr<H>> hs(nthreads);
  std::atomic<int> phase(0), arrived(0);
  std::vector<int> wrong(nthreads, 0);
  int left = 0;
  std::vector<std::thread> ts;
  for (int i = 0; i < nthreads; i++)
    ts.emplace_back([&, i] {
      for (int r = 1; r <= rounds; r++) {
        while (phase.load() < r) std::this_thread::yield();
        if (r % 3 == 1 && use(*hs[i]) != r % 100) wrong[i]++;
        if (r % 4 == 2) hs[i].reset(new H(*hs[i]));
        if (r % 4 == 3) {
          H mine(std::move(*hs[i]));
          *hs[i] = mine;
        }
        hs[i].reset();
        arrived.fetch_add(1);
      }
    });
  for (int r = 1; r <= rounds; r++) {
    {
      H h = make(r % 100);
      for (auto &x : hs) x.reset(new H(h));
      if (r % 2) {
        H gone(std::move(h));
      } else {
        // the last one here goes while the threads have theirs
        phase.store(r);
      }
    }
    phase.store(r);
    while (arrived.load() < r * nthreads) std::this_thread::yield();
    if (Light::count().load() != 0) left++;
  }
  for (auto &x : ts) x.join();
  int w = 0;
  for (int x : wrong) w += x;
  t.ev(vt::Obj("handoff")("rounds", rounds)("left", left)("wrong", w)("bad", Light::bad().load()));
  t.end();
}

// --- generators of the library -----------------------------------------------------------
static void walk(const rc::Shrinkable<std::string> &s, int depth, int width, std::vector<std::string> &out) {
  out.push_back(s.value());
  if (depth == 0) return;
  auto q = s.shrinks();
  for (int i = 0; i < width; i++) {
    auto k = q.next();
    if (!k) break;
    walk(*k, depth - 1, width, out);
  }
}
static void library(vt::Trace &t, const std::string &name, const std::function<rc::Gen<std::string>()> &make, std::uint64_t seed, int size) {
  const int n = 3;
  std::vector<std::string> a, b[n], c[n];
  try {
    walk(make()(rc::Random(seed), size), 3, 3, a);
  } catch (const rc::GenerationFailure &) {
    return;
  }
  {
    // one generator for all
    const auto gen = make();
    inThreads(n, [&](int i) { walk(gen(rc::Random(seed), size), 3, 3, b[i]); });
  }
  {
    // one shrinkable for all, each taking a copy
    std::vector<rc::Shrinkable<std::string>> s;
    {
      auto one = make()(rc::Random(seed), size);
      for (int i = 0; i < n; i++) s.push_back(one);
    }
    inThreads(n, [&](int i) {
      rc::Shrinkable<std::string> mine(std::move(s[i]));
      walk(mine, 3, 3, c[i]);
    });
  }
  t.begin("shared by threads", vt::Obj()("gen", name)("size", size));
  for (int i = 0; i < n; i++) t.ev(vt::Obj("late")("a", a)("b", b[i])), t.ev(vt::Obj("late")("a", a)("b", c[i]));
  t.end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "threads", 2);
  vt::Rng g(a.seed);
  const int n = a.thorough ? 600 : 60;
  for (int i = 0; i < n; i++) sequences(t, g, g.in(2, 4), g.in(10, 60));
  const int rounds = a.thorough ? 200000 : 15000;
  for (int th : {2, 3, 6}) {
    handoff<rc::Shrinkable<int>>(t, "shr", [](int p) { return rc::makeShrinkable<ShrImpl>(p); }, [](const rc::Shrinkable<int> &s) { return s.value(); }, th, rounds);
    handoff<rc::Gen<int>>(t, "gen", [](int p) { return rc::Gen<int>(GenImpl(p)); }, [](const rc::Gen<int> &s) { return s(rc::Random(), 0).value() - 10; }, th, rounds);
  }
  for (int i = 0; i < (a.thorough ? 20 : 3); i++)
    for (auto &x : gens())
      // picking inside a generator needs the contexts of the thread that runs a property
      if (x.first.find("gen::exec") == std::string::npos) library(t, x.first, x.second, g.next(), g.pick(std::vector<int>{3, 10, 40}));
  return 0;
}
