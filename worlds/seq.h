// Shared by the container worlds: choices that also work inside simulated
// threads, element traits, guarded execution of one operation.
#pragma once
#include <cstdio>
#include <functional>
#include <utility>
#include <vector>

#include <il/String.h>

#include "common.h"

namespace seq {
using namespace sim;

// A thread body draws from its own stream and hashes its own history.
struct Ctx {
  Stream* stream = nullptr;
  uint64_t* hash = nullptr;
  bool over = false;  // the process under test has stopped
  bool large = false;  // a run with larger sizes
};
extern thread_local Ctx t_ctx;

inline uint64_t pick(uint64_t n) {
  if (n <= 1) return 0;
  return t_ctx.stream ? t_ctx.stream->below(n) : draw(n);
}
inline bool one(uint64_t k) { return pick(k) == k - 1; }
inline int pickRange(int lo, int hi) { return lo + (int)pick((uint64_t)(hi - lo + 1)); }

inline void mixIn(uint64_t v) {
  uint64_t z = *t_ctx.hash ^ (v + 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  *t_ctx.hash = z ^ (z >> 29);
}
inline void evtOne(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; mixIn(h); }
inline void evtOne(const char* s) { evtOne(std::string(s)); }
inline void evtOne(double d) { uint64_t b; std::memcpy(&b, &d, 8); mixIn(b); }
template <typename I>
inline typename std::enable_if<std::is_integral<I>::value || std::is_enum<I>::value>::type evtOne(I i) { mixIn((uint64_t)(int64_t)i); }
template <typename... A>
void evt(const char* tag, const A&... a) {
  if (t_ctx.hash) {
    Host h;
    int dummy[] = {0, (evtOne(a), 0)...};
    (void)dummy;
  } else
    ev(tag, a...);
}

// One operation of the code under test.  false: the process stopped because
// memory was refused (the run is over).
template <typename F>
bool sut(const char* what, F&& f) {
  if (t_ctx.over) return false;
  const uint64_t failed = g_astats.failed;
  if (guarded(f) == End::Died) {
    if (g_astats.failed == failed)
      violate("process-stop", "%s stopped the process (%s) although no memory was refused", what, g_death);
    t_ctx.over = true;
    probe("stopped-by-refused-memory");
    return false;
  }
  if (isProp("C20"))
    SIM_CHECK(g_astats.failed == failed, "continued-without-memory", "%s went on although its memory request was refused", what);
  else if (g_astats.failed != failed) {  // another property's business: end the run here
    t_ctx.over = true;
    return false;
  }
  return true;
}

const int kUnknown = -2;   // any value
const int kDefault = -1;   // a default constructed object

template <typename T> struct El;
template <> struct El<int> {
  static const bool trivial = true;
  static int make(int v) { return v * 3 + 1; }
  static int get(int x) { return (x - 1) % 3 == 0 ? (x - 1) / 3 : -99; }
  static const char* name() { return "int"; }
};
template <> struct El<double> {
  static const bool trivial = true;
  static double make(int v) { return v + 0.25; }
  static int get(double x) { return x >= 0 && x < 1e6 && x == (int)x + 0.25 ? (int)x : -99; }
  static const char* name() { return "double"; }
};
template <> struct El<float> {
  static const bool trivial = true;
  static float make(int v) { return (float)v + 0.5f; }
  static int get(float x) { return x >= 0 && x < 1e6f && x == (float)(int)x + 0.5f ? (int)x : -99; }
  static const char* name() { return "float"; }
};
template <> struct El<unsigned char> {
  static const bool trivial = true;
  static unsigned char make(int v) { return (unsigned char)v; }
  static int get(unsigned char x) { return (int)x; }
  static const char* name() { return "unsigned char"; }
};
template <> struct El<short> {
  static const bool trivial = true;
  static short make(int v) { return (short)(v * 5 + 2); }
  static int get(short x) { return (x - 2) % 5 == 0 ? (x - 2) / 5 : -99; }
  static const char* name() { return "short"; }
};
template <> struct El<Obj> {
  static const bool trivial = false;
  static Obj make(int v) { return Obj{v}; }
  static int get(const Obj& x) { const int v = x.get(); return v == kDefaultObj ? kDefault : v; }
  static const char* name() { return "Obj"; }
};
template <> struct El<il::String> {
  static const bool trivial = false;
  // the text of v: its digits, padded to 1 .. 60 bytes
  static int text(int v, char* b) {
    int n = std::sprintf(b, "%d:", v);
    static const int pads[] = {0, 3, 18, 17, 40, 19, 16};
    const int pad = pads[v % 7];
    while (n < pad) b[n++] = (char)('a' + n % 26);
    b[n] = 0;
    return n;
  }
  static il::String make(int v) { char b[80]; const int n = text(v, b); return il::String{il::StringType::Byte, b, (il::int_t)n}; }
  static int get(const il::String& s) {
    const char* p = s.asCString();
    const il::int_t n = s.size();
    if (n == 0) return p[0] == 0 ? kDefault : -98;
    int v = 0;
    il::int_t i = 0;
    while (i < n && p[i] >= '0' && p[i] <= '9' && v < 100000) v = 10 * v + (p[i++] - '0');
    char b[80];
    const int want = text(v, b);
    if (want != n || std::memcmp(p, b, (size_t)n + 1) != 0) return -99;
    return v;
  }
  static const char* name() { return "String"; }
};
const int kMaxV = 200;
inline int value() { return (int)pick(kMaxV); }

// A slot holding an object under test in garbage memory.
template <typename A>
struct Holder {
  void* p = nullptr;
  A& operator*() { return *static_cast<A*>(p); }
  A* operator->() { return static_cast<A*>(p); }
  bool live() const { return p != nullptr; }
  void raw() { p = rawAlloc(sizeof(A), alignof(A) < 16 ? 16 : alignof(A)); }
  bool destroy(const char* what) {
    if (!p) return true;
    if (!sut(what, [&] { static_cast<A*>(p)->~A(); })) return false;
    rawFree(p);
    p = nullptr;
    return true;
  }
};

inline std::string show(const std::vector<int>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 40; ++i) {
    if (i) s += ' ';
    s += v[i] == kUnknown ? "?" : v[i] == kDefault ? "D" : std::to_string(v[i]);
  }
  return s + "]";
}
// Compares what was read with the model; hashes the known cells.
inline void compare(const char* what, const std::vector<int>& got, const std::vector<int>& want) {
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i] == kUnknown) continue;
    SIM_CHECK(got[i] == want[i], "wrong-element", "%s: element %zu is %d instead of %d; read %s, expected %s", what, i,
              got[i], want[i], show(got).c_str(), show(want).c_str());
    evt("=", want[i]);
  }
}
// The n objects of size bytes at p lie in one live block (or there is none).
inline void checkBlock(const char* what, const void* p, int64_t n, size_t size, const void* box, size_t box_size) {
  if (n <= 0) return;
  const char* c = (const char*)p;
  if (c >= (const char*)box && c + (size_t)n * size <= (const char*)box + box_size) return;  // inside the object
  SIM_CHECK(blockOf(p, (size_t)n * size) != nullptr, "outside-block", "%s: the %ld elements are not inside one live block", what, (long)n);
}
inline int nbOps() { return 1 + (int)pick(thorough() ? (one(4) ? 160 : 60) : (one(4) ? 80 : 25)); }

// How memory behaves in this run.  refusals: once in k runs one request fails.
inline void drawMemory(unsigned refusals) {
  if (t_ctx.stream) return;
  g_alloc.pages = draw(3) == 2;
  if (refusals && flip(refusals)) {
    g_alloc.fail_at = 1 + draw(draw(2) ? 60 : 8);
    g_alloc.fail_forever = draw(2) == 1;
  }
  if (draw(40) == 39) {
    t_ctx.large = true;
    probe("large-sizes");
  }
}
// In a few runs some sizes are far larger: thresholds lie anywhere.
inline int scaled(int usual, int most) {
  return t_ctx.large && pick(4) == 3 ? (int)pick((uint64_t)(pick(2) ? most : most / 8 + 1)) : usual;
}
inline unsigned refusals() { return isProp("C20") ? 2 : isProp("C14") ? 0 : 12; }
// At the end of a run, once every object has been destroyed.
inline void checkAllReleased() {
  if (t_ctx.stream || t_ctx.over) return;
  SIM_CHECK(Obj::alive() == 0, "element-leak", "%lu element(s) were never destroyed", (unsigned long)Obj::alive());
  SIM_CHECK(g_astats.live == 0, "memory-leak", "memory was lost: %s", describeLive().c_str());
}
}  // namespace seq
