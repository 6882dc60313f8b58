// Objects that know which of them are alive.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <set>

struct Registry {
  std::mutex m;
  std::map<const void *, int> alive; // object -> payload (0: moved from)
  bool bad = false;
  void born(const void *p, int v) {
    std::lock_guard<std::mutex> g(m);
    if (!alive.emplace(p, v).second) bad = true;
  }
  void dead(const void *p) {
    std::lock_guard<std::mutex> g(m);
    if (alive.erase(p) != 1) bad = true;
  }
  int get(const void *p) {
    std::lock_guard<std::mutex> g(m);
    auto it = alive.find(p);
    if (it == alive.end()) {
      bad = true;
      return -1;
    }
    return it->second;
  }
  void set(const void *p, int v) {
    std::lock_guard<std::mutex> g(m);
    auto it = alive.find(p);
    if (it == alive.end()) bad = true;
    else it->second = v;
  }
  static Registry &it() {
    static Registry *r = new Registry;
    return *r;
  }
};
struct CopyFails {};


#ifdef PROBE_LIGHT
// For several threads: nothing here orders what different threads do, so that the
// thread sanitizer sees every access that the code under test does not order.
#include <atomic>
struct Light {
  static std::atomic<long> &count() {
    static std::atomic<long> c(0);
    return c;
  }
  static std::atomic<bool> &bad() {
    static std::atomic<bool> b(false);
    return b;
  }
};
template <int Tag>
struct Probe {
  int check = 12345;
  int val;
  void born() { Light::count().fetch_add(1, std::memory_order_relaxed); }
  explicit Probe(int v) : val(v) { born(); }
  Probe(const Probe &o) : val(o.v()) { born(); }
  Probe(Probe &&o) noexcept : val(o.v()) {
    o.val = 0;
    born();
  }
  Probe &operator=(const Probe &o) {
    val = o.v();
    return *this;
  }
  Probe &operator=(Probe &&o) noexcept {
    const int x = o.v();
    o.val = 0;
    val = x;
    return *this;
  }
  ~Probe() {
    if (check != 12345) Light::bad().store(true, std::memory_order_relaxed);
    check = 0;
    Light::count().fetch_sub(1, std::memory_order_relaxed);
  }
  int v() const {
    if (check != 12345) Light::bad().store(true, std::memory_order_relaxed);
    return val;
  }
  bool operator==(const Probe &o) const { return v() == o.v(); }
};
#else
template <int Tag>
struct Probe {
  int check = 12345; // plain memory, so that the sanitizers see a stale use
  bool fails = false;
  explicit Probe(int v) { Registry::it().born(this, v); }
  Probe(int v, bool f) : fails(f) { Registry::it().born(this, v); }
  Probe(const Probe &o) {
    const int v = o.v();
    if (o.fails) throw CopyFails();
    Registry::it().born(this, v);
  }
  Probe(Probe &&o) noexcept {
    Registry::it().born(this, o.v());
    fails = o.fails;
    Registry::it().set(&o, 0);
  }
  Probe &operator=(const Probe &o) {
    const int x = o.v();
    if (o.fails) throw CopyFails();
    fails = false;
    Registry::it().set(this, x);
    return *this;
  }
  Probe &operator=(Probe &&o) noexcept {
    const int x = o.v();
    const bool f = o.fails;
    Registry::it().set(&o, 0);
    fails = f;
    Registry::it().set(this, x);
    return *this;
  }
  ~Probe() {
    check = 0;
    Registry::it().dead(this);
  }
  int v() const {
    if (check != 12345) Registry::it().bad = true;
    return Registry::it().get(this);
  }
  bool operator==(const Probe &o) const { return v() == o.v(); }
};
#endif
template <int Tag>
std::ostream &operator<<(std::ostream &os, const Probe<Tag> &p) { return os << "probe " << p.v(); }
