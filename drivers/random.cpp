// C13: random generators as values in a tree of splits.
#include <rapidcheck.h>
#include <rapidcheck/detail/Serialization.h>
#include "vt.h"

using namespace rc;

static vt::Trace *T;
using Key = Random::Key;
static vt::J keyJ(const Key &k) {
  std::string o = "[";
  for (auto w : k) o += (o.size() > 1 ? "," : "") + vt::u64(w).s;
  return vt::J(o + "]");
}
struct World {
  std::vector<Random> g;
  std::vector<bool> live, drawnFrom;
  explicit World(int n) : g(n), live(n, false), drawnFrom(n, false) {}
  void create(int h, const Key &k, vt::Rng &rng) {
    if (k[0] == k[1] && k[1] == k[2] && k[2] == k[3] && rng.below(4)) {
      if (k[0] == 0 && rng.below(2)) g[h] = Random();
      else g[h] = Random(k[0]);
    } else
      g[h] = Random(k);
    live[h] = true;
    drawnFrom[h] = false;
    T->ev(vt::Obj("new")("h", h + 1)("key", keyJ(k)));
  }
  void split(int h, int to) {
    Random r = g[h].split();
    g[to] = r;
    live[to] = true;
    drawnFrom[to] = false;
    T->ev(vt::Obj("split")("h", h + 1)("to", to + 1));
  }
  void next(int h) {
    drawnFrom[h] = true;
    auto v = g[h].next();
    T->ev(vt::Obj("next")("h", h + 1)("v", vt::u64(v)));
  }
  void copy(int h, int to, vt::Rng &rng) {
    if (rng.below(2)) {
      Random c(g[h]);
      g[to] = std::move(c);
    } else
      g[to] = g[h];
    live[to] = true;
    drawnFrom[to] = drawnFrom[h];
    T->ev(vt::Obj("copy")("h", h + 1)("to", to + 1));
  }
  void save(int h, int to) {
    std::vector<std::uint8_t> bytes;
    serialize(g[h], std::back_inserter(bytes));
    Random &out = g[to];
    Random in = g[h];
    auto it = deserialize(bytes.begin(), bytes.end(), out);
    live[to] = true;
    drawnFrom[to] = drawnFrom[h];
    T->ev(vt::Obj("save")("h", h + 1)("to", to + 1)("same", it == bytes.end() && out == in));
  }
  void put(int h, const Key &k, const std::vector<int> &path, uint64_t n) {
    using namespace rc::detail;
    std::vector<std::uint8_t> b;
    uint64_t bits = 0;
    for (size_t i = 0; i < path.size(); i++) bits |= uint64_t(path[i]) << i;
    auto o = std::back_inserter(b);
    serializeN(k.begin(), 4, o);
    serializeCompact(bits, o);
    serializeCompact(n, o);
    b.push_back(std::uint8_t(path.size()));
    deserialize(b.begin(), b.end(), g[h]);
    live[h] = true;
    drawnFrom[h] = n != 0;
    T->ev(vt::Obj("put")("h", h + 1)("key", keyJ(k))("path", path)("n", vt::u64(n)));
  }
  void cmp(int h, int k) {
    const Random &a = g[h], &b = g[k];
    std::hash<Random> hs;
    Random ca = a, cb = b;
    bool same = hs(a) == hs(b) && a == ca && b == cb;
    T->ev(vt::Obj("cmp")("h", h + 1)("g", k + 1)("eq", a == b)("ne", a != b)("lt", a < b)("gt", b < a)("hash", same));
  }
  // every two of the generators there are, compared
  void order() {
    std::vector<int> hs;
    std::string lt = "[", eq = "[";
    for (size_t i = 0; i < g.size(); i++)
      if (live[i]) hs.push_back(int(i) + 1);
    for (int i : hs) {
      std::vector<int> a, b;
      for (int j : hs) {
        if (g[i - 1] < g[j - 1]) a.push_back(j);
        if (g[i - 1] == g[j - 1]) b.push_back(j);
      }
      lt += (lt.size() > 1 ? "," : "") + vt::js(a).s;
      eq += (eq.size() > 1 ? "," : "") + vt::js(b).s;
    }
    T->ev(vt::Obj("order")("hs", hs)("lt", vt::J(lt + "]"))("eq", vt::J(eq + "]")));
  }
  int some(vt::Rng &rng) {
    int h;
    do h = rng.below(g.size());
    while (!live[h]);
    return h;
  }
};
static Key someKey(vt::Rng &rng) {
  switch (rng.below(4)) {
  case 0: return Key{{0, 0, 0, 0}};
  case 1: {
    uint64_t s = rng.below(3) ? rng.below(4) : rng.next();
    return Key{{s, s, s, s}};
  }
  case 2: {
    Key k{{7, 7, 7, 7}};
    k[rng.below(4)] ^= uint64_t(1) << rng.below(64);
    return k;
  }
  default: return Key{{rng.next(), rng.next(), rng.next(), rng.next()}};
  }
}
static void randomOps(vt::Rng &rng) {
  const int H = 8;
  World w(H);
  T->begin("ops", vt::Obj()("handles", H));
  Key k = someKey(rng);
  w.create(0, k, rng);
  for (int s = rng.in(20, 90); s > 0; s--) {
    int h = w.some(rng), to = rng.below(H), r = rng.below(100);
    if (r < 3) w.create(to, rng.below(2) ? k : someKey(rng), rng);
    else if (r < 40) {
      if (to != h && !w.drawnFrom[h]) w.split(h, to);
    } else if (r < 75) {
      for (int i = rng.below(6); i >= 0; i--) w.next(h);
    } else if (r < 83) w.copy(h, to, rng);
    else if (r < 91) w.save(h, to);
    else w.cmp(h, w.some(rng));
  }
  w.order();
  T->end();
}
// one long way down the tree; at every level the other branch is drawn from
static void deep(vt::Rng &rng, int depth) {
  World w(4);
  T->begin("deep", vt::Obj()("handles", 4));
  w.create(0, someKey(rng), rng);
  int cur = 0, other = 1, mode = rng.below(3);
  for (int i = 0; i < depth; i++) {
    w.split(cur, other);
    if (mode == 1 || (mode == 2 && rng.below(2))) std::swap(cur, other);
    w.next(other);
    if (rng.below(4) == 0) w.next(other);
    if (rng.below(5) == 0) w.save(cur, cur);
    if (rng.below(8) == 0) {
      w.copy(cur, 2, rng);
      w.cmp(cur, 2);
      w.next(2);
      w.cmp(cur, 2);
    }
  }
  for (int i = 0; i < 6; i++) w.next(cur);
  T->end();
}
// all leaves of a small complete tree below a given place
static void wide(vt::Rng &rng, int down, int levels) {
  const int H = 1 << levels;
  World w(H + 1);
  T->begin("wide", vt::Obj()("handles", H + 1));
  w.create(0, someKey(rng), rng);
  for (int i = 0; i < down; i++) {
    w.split(0, H);
    if (rng.below(2)) w.copy(H, 0, rng);
  }
  int n = 1;
  for (int i = 0; i < levels; i++, n *= 2)
    for (int h = 0; h < n; h++) w.split(h, n + h);
  for (int j = 0; j < 5; j++)
    for (int h = 0; h < n; h++) w.next(h);
  for (int h = 0; h + 1 < n; h++) w.cmp(h, h + 1);
  w.order();
  T->end();
}
// a long stream; places far along it, and over the end of the counter
static void longStream(vt::Rng &rng, int n) {
  World w(3);
  T->begin("long", vt::Obj()("handles", 3));
  Key k = someKey(rng);
  w.create(0, k, rng);
  for (int i = 0; i < n; i++) {
    w.next(0);
    if (rng.below(10) == 0) {
      w.save(0, 1);
      w.cmp(0, 1);
      w.next(1);
      w.next(1);
      w.cmp(0, 1);
    }
  }
  T->end();
}
static void far(vt::Rng &rng) {
  World w(7);
  T->begin("far", vt::Obj()("handles", 7));
  Key k = someKey(rng);
  std::vector<int> path;
  for (int i = rng.below(65); i > 0; i--) path.push_back(rng.below(2));
  uint64_t base;
  switch (rng.below(4)) {
  case 0: base = ~uint64_t(0) - rng.below(8); break;
  case 1: base = (uint64_t(1) << rng.in(3, 63)) - rng.below(8); break;
  case 2: base = rng.next(); break;
  default: base = rng.below(300);
  }
  w.put(0, k, path, base);
  // the same place again, and one that differs in one bit of the counter
  w.put(1, k, path, base);
  w.put(2, k, path, base ^ (uint64_t(1) << rng.below(64)));
  w.cmp(0, 1);
  w.cmp(0, 2);
  if (!path.empty()) {
    // a place that differs in one branch: not below the first one
    auto p2 = path;
    p2[rng.below(p2.size())] ^= 1;
    w.put(3, k, p2, base);
    w.cmp(0, 3);
  } else
    w.create(3, someKey(rng), rng);
  Key k2 = k;
  k2[rng.below(4)] ^= uint64_t(1) << rng.below(64);
  w.put(4, k2, path, base);
  w.cmp(0, 4);
  // the stream the far one is part of, from its beginning
  w.put(6, k, path, 0);
  w.cmp(0, 6);
  for (int i = rng.in(4, 14); i > 0; i--) w.next(6);
  for (int i = 0; i < 12; i++) {
    for (int h = 0; h < 5; h++) w.next(h);
    if (rng.below(4) == 0) {
      w.save(0, 5);
      w.next(5);
    }
    w.cmp(0, 1);
    w.cmp(0, 2);
    if (i % 4 == 0) w.order();
  }
  T->end();
}

int main(int argc, char **argv) {
  vt::Args a(argc, argv);
  vt::Trace t(a.dir, "trace", 6);
  T = &t;
  vt::Rng rng(a.seed);
  const int f = a.thorough ? 10 : 1;
  for (int i = 0; i < 400 * f; i++) randomOps(rng);
  for (int i = 0; i < 24 * f; i++) deep(rng, 40 + rng.below(i % 6 == 0 ? 220 : 100));
  for (int i = 0; i < 8 * f; i++) {
    wide(rng, i % 3 == 0 ? 0 : rng.in(55, 66), rng.in(3, 5));
    longStream(rng, rng.in(20, 150));
  }
  for (int i = 0; i < 400 * f; i++) far(rng);
  return 0;
}
