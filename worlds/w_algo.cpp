// Extremes, searches, statistics and sorting of arrays (C26).
#include <algorithm>
#include <cmath>

#include <il/Array.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>

#include "seq.h"

using namespace seq;

namespace {

// An element that tells how deep the stack is when it is compared.
struct Deep {
  int v;
  static char* lowest;
  static void here() {
    char c;
    char* p = &c;
    if (!lowest || p < lowest) lowest = p;
  }
  bool operator<(const Deep& o) const { here(); return v < o.v; }
  bool operator>(const Deep& o) const { here(); return v > o.v; }
  bool operator<=(const Deep& o) const { here(); return v <= o.v; }
  bool operator==(const Deep& o) const { here(); return v == o.v; }
};
char* Deep::lowest = nullptr;

template <typename T> struct Gen;
template <> struct Gen<int> {
  static int make(Stream& s, int form) {
    switch (form) {
      case 0: return (int)s.below(10);
      case 1: return (int)s.below(2000) - 1000;
      case 2: return (int)(int32_t)s.next() / 2;
      default: return s.below(2) ? 2147483647 : -2147483647;
    }
  }
  static const char* name() { return "int"; }
};
template <> struct Gen<long> {
  static long make(Stream& s, int form) {
    switch (form) {
      case 0: return (long)s.below(10);
      case 1: return (1l << 53) + (long)s.below(16) - 8;
      case 2: return (long)s.next() / 2;
      default: return s.below(2) ? 9223372036854775807l : -9223372036854775807l;
    }
  }
  static const char* name() { return "long"; }
};
template <> struct Gen<double> {
  static double make(Stream& s, int form) {
    switch (form) {
      case 0: return (double)s.below(10) * 0.25 - 1.0;
      case 1: return ((double)(s.next() >> 11) / 9007199254740992.0) * 2.0 - 1.0;
      case 2: return std::ldexp((double)(int64_t)(s.next() >> 12) * (s.below(2) ? 1.0 : -1.0), (int)s.below(600) - 300);
      case 4: return 123456789.0 + (double)s.below(1000) * 0.125;
      default: return s.below(3) == 0 ? HUGE_VAL : s.below(2) ? -HUGE_VAL : 0.0;
    }
  }
  static const char* name() { return "double"; }
};
template <> struct Gen<float> {
  static float make(Stream& s, int form) { return form == 3 ? (s.below(2) ? 3.0e38f : -3.0e38f) : form == 4 ? 4096.0f + (float)s.below(16) * 0.25f : (float)Gen<double>::make(s, form == 2 ? 1 : form); }
  static const char* name() { return "float"; }
};
template <typename T> T absOf(T x) { return x < 0 ? -x : x; }

// How the content is arranged.
template <typename T>
std::vector<T> content(size_t n, Stream& s, int form, int shape) {
  std::vector<T> v(n);
  for (auto& x : v) x = Gen<T>::make(s, form);
  switch (shape) {
    case 1: std::sort(v.begin(), v.end()); break;
    case 2: std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); break;
    case 3: if (n) for (auto& x : v) x = v[0]; break;
    case 4: std::sort(v.begin(), v.end()); if (n) std::reverse(v.begin() + (long)(n / 2), v.end()); break;
    case 5: std::sort(v.begin(), v.end()); if (n > 1) std::swap(v[s.below(n)], v[s.below(n)]); break;
    default: break;
  }
  return v;
}

// Without the elements that a mutable access would let change: written one by one.
template <typename T>
void fill(il::Array<T>& a, const T* p, size_t n) {
  for (size_t i = 0; i < n; ++i) a[(il::int_t)i] = p[i];
}

template <typename T>
struct World {
  Holder<il::Array<T>> h;
  std::vector<T> m;

  bool same(const il::Array<T>& a) const {
    if (a.size() != (il::int_t)m.size()) return false;
    for (size_t i = 0; i < m.size(); ++i)
      if (std::memcmp(&a[(il::int_t)i], &m[i], sizeof(T)) != 0) return false;
    return true;
  }
  bool build(Stream& s) {
    static const int sizes[] = {0, 1, 2, 3, 7, 14, 15, 16, 17, 30, 31, 33, 64, 100, 200};
    size_t n = draw(3) ? draw(20) : (size_t)sizes[draw(15)] + draw(3);
    const bool many = !t_ctx.stream && flip(150);
    if (many) n = draw(3) ? 250 + draw(2800) : draw(3) ? 3000 + draw(30000) : 32700 + draw(40000);
    m = content<T>(n, s, many ? (int)draw(3) : (int)draw(5), (int)draw(6));
    if (many) { probe("many-elements"); ev("many", n); }
    const size_t spare = draw(2) ? 0 : draw(20);
    setStepBudget(200000 + 200 * (uint64_t)n);
    if (!h.destroy("destructor")) return false;
    h.raw();
    const T* p = m.data();
    if (!sut("construction", [&] {
          il::Array<T>* a = new (h.p) il::Array<T>{};
          if (spare) a->Reserve((il::int_t)(n + spare));
          a->Resize((il::int_t)n);
          fill(*a, p, n);
        })) return false;
    ev("array", Gen<T>::name(), n, spare);
    return true;
  }
  void rangeOf(il::int_t& b, il::int_t& e) {
    const size_t n = m.size();
    b = (il::int_t)pick(n);
    e = b + 1 + (il::int_t)pick(n - (size_t)b);
    if (one(3)) e = (il::int_t)n;
  }
  bool op() {
    const size_t n = m.size();
    setStepBudget(200000 + 200 * (uint64_t)n);
    switch (pick(n ? 9 : 3)) {
      case 0: {  // sort in place, or a sorted copy
        std::vector<T> want = m;
        std::sort(want.begin(), want.end());
        const int way = (int)pick(3);
        if (n > 3100) return true;  // the time is quadratic for some arrangements
        std::vector<T> got(n);
        T* g = got.data();
        il::int_t size = -1;
        setStepBudget(200000 + 200 * (uint64_t)n + 60 * (uint64_t)n * n);
        if (!sut("sort", [&] {
              il::Array<T>& a = *h;
              if (way == 0) {
                il::sort(il::io, a);
                size = a.size();
                for (size_t i = 0; i < n; ++i) g[i] = static_cast<const il::Array<T>&>(a)[(il::int_t)i];
              } else {
                const il::Array<T> b = way == 1 ? il::sort(a) : il::sort(static_cast<const il::Array<T>&>(a));
                size = b.size();
                for (size_t i = 0; i < n; ++i) g[i] = b[(il::int_t)i];
              }
            })) return false;
        SIM_CHECK(size == (il::int_t)n, "wrong-count", "sorting %zu elements gives %ld", n, (long)size);
        for (size_t i = 0; i < n; ++i)
          SIM_CHECK(got[i] == want[i], "wrong-order", "sort: element %zu of %zu is %.17g instead of %.17g", i, n, (double)got[i], (double)want[i]);
        if (way == 0) { m = got; return true; }  // 0.0 and -0.0 may have been exchanged
        break;
      }
      case 1: {  // binary search in a sorted array
        T x = T();
        Stream s = stream();
        if (n && pick(2)) x = m[pick(n)];
        else x = Gen<T>::make(s, (int)pick(4));
        std::vector<T> sorted = m;
        std::sort(sorted.begin(), sorted.end());
        const T* p = sorted.data();
        il::int_t at = -7;
        if (!sut("binarySearch", [&] { fill(*h, p, n); at = il::binarySearch(*h, x); })) return false;
        m = sorted;
        const bool present = std::binary_search(sorted.begin(), sorted.end(), x);
        SIM_CHECK(at < (il::int_t)n && (at >= 0) == present && (at < 0 || sorted[(size_t)at] == x), "wrong-position",
                  "binarySearch gives %ld in an array of %zu elements, present: %d", (long)at, n, (int)present);
        evt("found", (int)present);
        return true;
      }
      case 2: {  // fixed size
        Stream s = stream();
        std::vector<T> v = content<T>(5, s, (int)pick(4), (int)pick(6)), want = v;
        std::sort(want.begin(), want.end());
        T got[5];
        const T* p = v.data();
        if (!sut("sort(StaticArray)", [&] {
              il::StaticArray<T, 5> a{};
              for (int i = 0; i < 5; ++i) a[i] = p[i];
              il::sort(il::io, a);
              for (int i = 0; i < 5; ++i) got[i] = a[i];
            })) return false;
        for (int i = 0; i < 5; ++i) SIM_CHECK(got[i] == want[(size_t)i], "wrong-order", "sort of a fixed-size array: element %d is wrong", i);
        return true;
      }
      case 3: {  // extremes of the whole or of a range
        il::int_t b = 0, e = (il::int_t)n;
        const bool ranged = pick(2) == 1;
        if (ranged) rangeOf(b, e);
        const std::vector<T> w(m.begin() + b, m.begin() + e);
        T lo = T(), hi = T(), ab = T();
        if (!sut("min, max, maxAbs", [&] {
              const il::Array<T>& a = *h;
              if (ranged) { lo = il::min(a, il::Range{b, e}); hi = il::max(a, il::Range{b, e}); ab = il::maxAbs(a, il::Range{b, e}); }
              else { lo = il::min(a); hi = il::max(a); ab = il::maxAbs(a); }
            })) return false;
        const T wl = *std::min_element(w.begin(), w.end()), wh = *std::max_element(w.begin(), w.end());
        T wa = absOf(w[0]);
        for (T x : w) wa = std::max(wa, absOf(x));
        SIM_CHECK(lo == wl, "wrong-extreme", "min of [%ld, %ld) of %zu elements is %.17g instead of %.17g", (long)b, (long)e, n, (double)lo, (double)wl);
        SIM_CHECK(hi == wh, "wrong-extreme", "max of [%ld, %ld) of %zu elements is %.17g instead of %.17g", (long)b, (long)e, n, (double)hi, (double)wh);
        SIM_CHECK(ab == wa, "wrong-extreme", "maxAbs of [%ld, %ld) of %zu elements is %.17g instead of %.17g", (long)b, (long)e, n, (double)ab, (double)wa);
        evt("extremes", (double)lo, (double)hi);
        break;
      }
      case 4: {  // where the extremes are
        il::int_t b = 0, e = (il::int_t)n;
        const bool ranged = pick(2) == 1;
        if (ranged) rangeOf(b, e);
        const std::vector<T> w(m.begin() + b, m.begin() + e);
        il::int_t lo = -1, hi = -1, ab = -1;
        if (!sut("indexMin, indexMax, indexMaxAbs", [&] {
              const il::Array<T>& a = *h;
              if (ranged) { lo = il::indexMin(a, il::Range{b, e}); hi = il::indexMax(a, il::Range{b, e}); ab = il::indexMaxAbs(a, il::Range{b, e}); }
              else { lo = il::indexMin(a); hi = il::indexMax(a); ab = il::indexMaxAbs(a); }
            })) return false;
        T wa = absOf(w[0]);
        for (T x : w) wa = std::max(wa, absOf(x));
        SIM_CHECK(lo >= b && lo < e && m[(size_t)lo] == *std::min_element(w.begin(), w.end()), "wrong-position", "indexMin of [%ld, %ld) of %zu elements is %ld", (long)b, (long)e, n, (long)lo);
        SIM_CHECK(hi >= b && hi < e && m[(size_t)hi] == *std::max_element(w.begin(), w.end()), "wrong-position", "indexMax of [%ld, %ld) of %zu elements is %ld", (long)b, (long)e, n, (long)hi);
        SIM_CHECK(ab >= b && ab < e && absOf(m[(size_t)ab]) == wa, "wrong-position", "indexMaxAbs of [%ld, %ld) of %zu elements is %ld", (long)b, (long)e, n, (long)ab);
        evt("positions", lo, hi, ab);
        break;
      }
      case 5: {
        il::int_t b = 0, e = (il::int_t)n;
        const bool ranged = pick(2) == 1;
        if (ranged) rangeOf(b, e);
        const std::vector<T> w(m.begin() + b, m.begin() + e);
        T lo = T(), hi = T();
        if (!sut("minMax", [&] {
              const il::Array<T>& a = *h;
              const il::MinMax<T> r = ranged ? il::minMax(a, il::Range{b, e}) : il::minMax(a);
              lo = r.min;
              hi = r.max;
            })) return false;
        const T wl = *std::min_element(w.begin(), w.end()), wh = *std::max_element(w.begin(), w.end());
        SIM_CHECK(lo == wl && hi == wh, "wrong-extreme", "minMax of [%ld, %ld) of %zu elements is %.17g and %.17g instead of %.17g and %.17g", (long)b, (long)e, n, (double)lo,
                  (double)hi, (double)wl, (double)wh);
        break;
      }
      case 6: {  // a column of a two-dimensional array, over a range of rows
        const il::int_t n1 = 1 + (il::int_t)pick(4), n0 = (il::int_t)n / n1;
        if (n0 == 0) return true;
        const il::int_t j = (il::int_t)pick((uint64_t)n1), b = (il::int_t)pick((uint64_t)n0), e = b + 1 + (il::int_t)pick((uint64_t)(n0 - b));
        const il::int_t spare = (il::int_t)pick(3);
        const T* p = m.data();
        T lo = T(), hi = T();
        if (!sut("minMax(Array2D)", [&] {
              il::Array2D<T> a{};
              a.Reserve(n0 + spare, n1);
              a.Resize(n0, n1);
              for (il::int_t i1 = 0; i1 < n1; ++i1)
                for (il::int_t i0 = 0; i0 < n0; ++i0) a(i0, i1) = p[i0 + i1 * n0];
              const il::MinMax<T> r = il::minMax(a, il::Range{b, e}, j);
              lo = r.min;
              hi = r.max;
            })) return false;
        T wl = m[(size_t)(b + j * n0)], wh = wl;
        bool finite = true;
        for (il::int_t i = b; i < e; ++i) {
          const T x = m[(size_t)(i + j * n0)];
          wl = std::min(wl, x);
          wh = std::max(wh, x);
          finite = finite && std::isfinite((double)x);
        }
        if (finite)
          SIM_CHECK(lo == wl && hi == wh, "wrong-extreme", "minMax of the rows [%ld, %ld) of column %ld is %.17g and %.17g instead of %.17g and %.17g", (long)b, (long)e, (long)j,
                    (double)lo, (double)hi, (double)wl, (double)wh);
        break;
      }
      default: {  // mean and variance
        if (std::is_integral<T>::value) return true;
        const bool sample = n > 1 && pick(2) == 1;
        const int way = (int)pick(2);
        T mean = T(), var = T();
        if (!sut("mean, variance", [&] {
              const il::Array<T>& a = *h;
              const il::VarianceKind kind = sample ? il::VarianceKind::Sample : il::VarianceKind::Population;
              if (way == 0) { mean = il::mean(a); var = il::variance(a, kind); }
              else { const il::MeanVariance<T> r = il::meanVariance(a, kind); mean = r.mean; var = r.variance; }
            })) return false;
        long double sum = 0, big = 0;
        for (T x : m) { sum += x; big = std::max(big, (long double)absOf(x)); }
        const long double wm = sum / (long double)n;
        if (!(big < 1e100l) || (sizeof(T) == 4 && !(big < 1e10l))) return true;  // the squares would overflow
        long double wv = 0;
        for (T x : m) wv += (x - wm) * (x - wm);
        wv /= (long double)(sample ? n - 1 : n);
        const long double eps = sizeof(T) == 4 ? 1e-6l : 1e-15l;
        SIM_CHECK(fabsl(mean - wm) <= eps * (long double)(n + 4) * big, "wrong-mean", "the mean of %zu elements is %.17g instead of %.17Lg", n, (double)mean, wm);
        // What is left when each difference is taken with a rounded mean
        const long double shift = eps * (long double)(n + 4) * big;
        SIM_CHECK(fabsl(var - wv) <= 8 * (eps * (long double)(n + 4) * wv + shift * shift + shift * eps * big), "wrong-variance", "the variance of %zu elements is %.17g instead of %.17Lg", n, (double)var, wv);
        evt("statistics", (double)mean);
      }
    }
    // nothing but what is asked is changed
    bool unchanged = true;
    if (!sut("reading", [&] { unchanged = same(*h); })) return false;
    SIM_CHECK(unchanged, "array-changed", "an operation that reads the array changed it");
    return true;
  }
  void run() {
    Stream s = stream();
    if (!build(s)) return;
    const int nb = nbOps() / 2 + 1;
    for (int k = 0; k < nb; ++k) {
      if (one(5)) { if (!build(s)) return; }
      else if (!op()) return;
    }
    setStepBudget(200000);
    if (nb > 3) nontrivial();
    if (!h.destroy("destructor")) return;
    checkAllReleased();
  }
};

// The stack that sorting needs does not grow with the number of elements.
void deepSort() {
  const int n = 300 + (int)(draw(4) ? draw(700) : draw(2500));
  const int shape = (int)draw(6);
  Stream s = stream();
  std::vector<int> v(static_cast<size_t>(n));
  const int distinct = 1 + (int)draw(draw(2) ? 4 : 1000);
  for (auto& x : v) x = (int)s.below((uint64_t)distinct);
  if (shape == 1) std::sort(v.begin(), v.end());
  if (shape == 2) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
  if (shape == 3) { std::sort(v.begin(), v.end()); std::reverse(v.begin() + n / 2, v.end()); }
  std::vector<int> want = v;
  std::sort(want.begin(), want.end());
  std::vector<int> got((size_t)n, -1);
  const int* p = v.data();
  int* g = got.data();
  Deep::lowest = nullptr;
  char base;
  char* top = &base;
  setStepBudget(100000 + 60ull * (uint64_t)n * (uint64_t)n);
  if (!sut("sort", [&] {
        il::Array<Deep> a{n};
        for (int i = 0; i < n; ++i) a[i].v = p[i];
        il::sort(il::io, a);
        for (int i = 0; i < n; ++i) g[i] = a[i].v;
      })) return;
  ev("sort", n, shape, distinct);
  nontrivial();
  for (int i = 0; i < n; ++i) SIM_CHECK(got[(size_t)i] == want[(size_t)i], "wrong-order", "sort: element %d of %d is %d instead of %d", i, n, got[(size_t)i], want[(size_t)i]);
  const long used = (long)(top - Deep::lowest);
  SIM_CHECK(used < 40000, "deep-stack", "sorting %d elements used more than 40000 bytes of stack", n);
  probe("deep-sort");
}
}  // namespace

void world_algo() {
  drawMemory(refusals());
  if (!t_ctx.stream && flip(40)) { deepSort(); return; }
  switch (pick(4)) {
    case 0: { World<double> w; w.run(); break; }
    case 1: { World<int> w; w.run(); break; }
    case 2: { World<long> w; w.run(); break; }
    default: { World<float> w; w.run(); break; }
  }
}
