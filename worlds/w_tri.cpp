// Triangular, band and tri-diagonal arrays (C25).
#include <algorithm>
#include <cstring>

#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 3;

template <template <typename> class Tri, bool lower, typename T>
struct TriWorld {
  typedef Tri<T> A;
  Holder<A> h[kSlots];
  struct Model {
    int n = 0;
    std::vector<int> c;  // by column, then by row
  } m[kSlots];

  static int cells(int n) { return n * (n + 1) / 2; }
  // the k-th cell
  static void at(int n, int k, il::int_t& i0, il::int_t& i1) {
    for (i1 = 0;; ++i1) {
      const int len = lower ? n - (int)i1 : (int)i1 + 1;
      if (k < len) { i0 = lower ? i1 + k : k; return; }
      k -= len;
    }
  }
  bool check(int k, const char* what) {
    const A& a = *h[k];
    Model& w = m[k];
    il::int_t n = -1, c = -1;
    T* data = nullptr;
    if (!sut("size", [&] { n = a.size(); c = a.capacity(); data = (*h[k]).Data(); })) return false;
    SIM_CHECK(n == w.n && c >= n, "wrong-count", "%s: size %ld, capacity %ld instead of %d", what, (long)n, (long)c, w.n);
    const int nb = cells(w.n);
    checkBlock(what, data, nb, sizeof(T), h[k].p, sizeof(A));
    std::vector<int> got((size_t)nb, kUnknown);
    int* g = got.data();
    const int* want = w.c.data();
    const T* outside = nullptr;
    if (!sut("reading", [&] {
          for (int i = 0; i < nb; ++i) {
            il::int_t i0, i1;
            at((int)n, i, i0, i1);
            const T& x = a(i0, i1);
            if (&x < data || &x >= data + nb) { outside = &x; return; }
            if (want[i] != kUnknown) g[i] = El<T>::get(x);
          }
        })) return false;
    SIM_CHECK(!outside, "outside-block", "%s: an element is outside the %d elements of the array", what, nb);
    compare(what, got, w.c);
    evt(what, k, n);
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  void fresh(Model& w, int n) {
    w.n = n;
    w.c.assign((size_t)cells(n), El<T>::trivial ? kUnknown : kDefault);
  }
  bool resync(int k) {
    fresh(m[k], 0);
    return sut("assignment", [&] { *h[k] = A{}; });
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    const int j = (int)pick(kSlots), n = scaled((int)pick(9), 70);
    const int how = (int)pick(5);
    if (how == 0) { fresh(m[k], 0); return sut("construction", [&] { new (p) A{}; }); }
    if (how < 3 || j == k || !h[j].live()) { fresh(m[k], n); return sut("construction with a size", [&] { new (p) A{(il::int_t)n}; }) && (pick(2) || fill(k)); }
    m[k] = m[j];
    if (how == 3) return sut("copy construction", [&] { new (p) A(*h[j]); });
    return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
  }
  bool fill(int k) {
    Model& w = m[k];
    const int x = value();
    for (size_t i = 0; i < w.c.size(); ++i) w.c[i] = (x + (int)i) % kMaxV;
    const int nb = (int)w.c.size(), n = w.n;
    const int* c = w.c.data();
    A& a = *h[k];
    return sut("writes", [&] {
      for (int i = 0; i < nb; ++i) {
        il::int_t i0, i1;
        at(n, i, i0, i1);
        a(i0, i1) = El<T>::make(c[i]);
      }
    });
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    A& a = *h[k];
    Model& w = m[k];
    switch (pick(10)) {
      case 0: case 1: return fill(k);
      case 2: case 3: {
        if (w.c.empty()) return true;
        const int i = (int)pick(w.c.size()), x = value();
        w.c[(size_t)i] = x;
        return sut("write", [&] { il::int_t i0, i1; at(w.n, i, i0, i1); a(i0, i1) = El<T>::make(x); });
      }
      case 4: case 5: case 6: {
        const int j = one(5) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        w = Model(m[j]);
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; });
      }
      case 7: {
        const int j = one(5) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k);
        w = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j);
      }
      default: return h[k].destroy("destruction") && (pick(2) || construct(k));
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};

// Band and tri-diagonal arrays: row i holds the elements at distance -left ..
// right from the diagonal.
template <typename T>
struct Band {
  typedef il::BandArray2C<T> A;
  static const bool band = true;
};
template <typename T>
struct Tri {
  typedef il::TriDiagonal<T> A;
  static const bool band = false;
};
struct Shape { int n0 = 0, n1 = 0, left = 0, right = 0; };
template <typename T> void newBand(void* p, const Shape& s, bool square, il::BandArray2C<T>*) {
  if (square) new (p) il::BandArray2C<T>{(il::int_t)s.n0, (il::int_t)s.left};
  else new (p) il::BandArray2C<T>{(il::int_t)s.n0, (il::int_t)s.n1, (il::int_t)s.left, (il::int_t)s.right};
}
template <typename T> void newBand(void* p, const Shape& s, bool, il::TriDiagonal<T>*) { new (p) il::TriDiagonal<T>{(il::int_t)s.n0}; }
template <typename T> bool shapeOk(const il::BandArray2C<T>& a, const Shape& s) {
  return a.size(0) == s.n0 && a.size(1) == s.n1 && a.widthLeft() == s.left && a.widthRight() == s.right && a.capacityRight() >= s.left + s.right;
}
template <typename T> bool shapeOk(const il::TriDiagonal<T>& a, const Shape& s) { return a.size() == s.n0; }
template <typename T> T* dataOf(il::BandArray2C<T>& a, int) { return a.Data(); }
template <typename T> T* dataOf(il::TriDiagonal<T>& a, int part) { return part == 0 ? a.LowerData() : part == 1 ? a.DiagonalData() : a.UpperData(); }

template <template <typename> class W, typename T>
struct BandWorld {
  typedef typename W<T>::A A;
  Holder<A> h[kSlots];
  struct Model {
    Shape s;
    std::vector<int> c;  // (i0, k) at i0 * (left + right + 1) + left + k
  } m[kSlots];

  static bool valid(const Shape& s, int i0, int k) {
    if (!W<T>::band) return true;  // every row has its three cells
    return i0 + k >= 0 && i0 + k < s.n1;
  }
  static int width(const Shape& s) { return s.left + s.right + 1; }
  bool check(int k, const char* what) {
    const A& a = *h[k];
    Model& w = m[k];
    const Shape s = w.s;
    bool shape = false;
    if (!sut("shape", [&] { shape = shapeOk(a, s); })) return false;
    SIM_CHECK(shape, "wrong-count", "%s: the shape is not %d x %d, widths %d and %d", what, s.n0, s.n1, s.left, s.right);
    std::vector<int> got(w.c.size(), kUnknown), want(w.c);
    std::vector<const T*> where(w.c.size(), nullptr);
    int* g = got.data();
    const int* pw = w.c.data();
    const T** pp = where.data();
    if (!sut("reading", [&] {
          for (int i = 0; i < s.n0; ++i)
            for (int d = -s.left; d <= s.right; ++d)
              if (valid(s, i, d)) {
                const int c = i * width(s) + s.left + d;
                const T& x = a((il::int_t)i, (il::int_t)d);
                pp[c] = &x;
                if (pw[c] != kUnknown) g[c] = El<T>::get(x);
              }
        })) return false;
    std::vector<const T*> sorted;
    for (size_t c = 0; c < where.size(); ++c) {
      if (!where[c]) { want[c] = kUnknown; continue; }
      sorted.push_back(where[c]);
      checkBlock(what, where[c], 1, sizeof(T), h[k].p, sizeof(A));
    }
    std::sort(sorted.begin(), sorted.end());
    for (size_t c = 1; c < sorted.size(); ++c) SIM_CHECK(sorted[c] != sorted[c - 1], "shared-storage", "%s: two elements share their storage", what);
    compare(what, got, want);
    if (!W<T>::band && s.n0 > 0) {
      const T *l = nullptr, *d = nullptr, *u = nullptr;
      if (!sut("Data", [&] { l = dataOf(*h[k], 0); d = dataOf(*h[k], 1); u = dataOf(*h[k], 2); })) return false;
      for (int i = 0; i < s.n0; ++i) {
        SIM_CHECK(where[(size_t)i * 3 + 1] == d + i, "wrong-storage", "%s: element %d of the diagonal", what, i);
        SIM_CHECK(i == 0 || where[(size_t)i * 3] == l + i - 1, "wrong-storage", "%s: element %d of the lower diagonal", what, i);
        SIM_CHECK(i + 1 == s.n0 || where[(size_t)i * 3 + 2] == u + i, "wrong-storage", "%s: element %d of the upper diagonal", what, i);
      }
    }
    evt(what, k, s.n0, s.n1);
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    const int j = (int)pick(kSlots);
    Model& w = m[k];
    if (j != k && h[j].live() && pick(2)) {
      w = m[j];
      if (pick(2)) return sut("copy construction", [&] { new (p) A(*h[j]); });
      return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && h[j].destroy("destruction");
    }
    Shape s;
    s.n0 = scaled((int)pick(8), 200);
    s.n1 = s.n0;
    s.left = s.right = 1;
    bool square = true;
    if (W<T>::band) {
      s.left = s.right = (int)pick(4);
      if (pick(2)) { square = false; s.n1 = (int)pick(8); s.right = (int)pick(4); }
    }
    w.s = s;
    w.c.assign((size_t)(s.n0 * width(s)), kUnknown);
    bool zero = true;
    if (!sut("construction", [&] {
          newBand(p, s, square, static_cast<A*>(p));
          if (W<T>::band) {
            const A& a = *static_cast<A*>(p);
            for (int i = 0; i < s.n0; ++i)
              for (int d = -s.left; d <= s.right; ++d)
                if (valid(s, i, d) && !(a((il::int_t)i, (il::int_t)d) == T(0))) zero = false;
          }
        })) return false;
    SIM_CHECK(zero, "wrong-element", "a new band array does not hold zeros");
    return pick(3) == 0 || fill(k);
  }
  bool fill(int k) {
    Model& w = m[k];
    const int x = value();
    for (size_t i = 0; i < w.c.size(); ++i) w.c[i] = (x + (int)i) % kMaxV;
    const int* c = w.c.data();
    const Shape s = w.s;
    A& a = *h[k];
    return sut("writes", [&] {
      for (int i = 0; i < s.n0; ++i)
        for (int d = -s.left; d <= s.right; ++d)
          if (valid(s, i, d)) a((il::int_t)i, (il::int_t)d) = El<T>::make(c[i * width(s) + s.left + d]);
    });
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    A& a = *h[k];
    Model& w = m[k];
    switch (pick(9)) {
      case 0: case 1: return fill(k);
      case 2: case 3: {
        if (w.c.empty()) return true;
        const int i = (int)pick((uint64_t)w.s.n0), d = (int)pick((uint64_t)width(w.s)) - w.s.left, x = value();
        if (!valid(w.s, i, d)) return true;
        w.c[(size_t)(i * width(w.s) + w.s.left + d)] = x;
        return sut("write", [&] { a((il::int_t)i, (il::int_t)d) = El<T>::make(x); });
      }
      case 4: case 5: {
        const int j = one(5) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        w = Model(m[j]);
        return sut("copy assignment", [&] { A& t = a; const A& s = *h[j]; t = s; });
      }
      case 6: {
        const int j = (int)pick(kSlots);
        if (j == k || !h[j].live()) return true;
        w = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && h[j].destroy("destruction");
      }
      default: return h[k].destroy("destruction") && (pick(2) || construct(k));
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
template <typename T>
void tri() {
  if (pick(2)) { evt("lower", El<T>::name()); TriWorld<il::LowerArray2D, true, T> w; w.run(); }
  else { evt("upper", El<T>::name()); TriWorld<il::UpperArray2D, false, T> w; w.run(); }
}
template <template <typename> class W, typename T>
void band() {
  evt(W<T>::band ? "band" : "tridiagonal", El<T>::name());
  BandWorld<W, T> w;
  w.run();
}
}  // namespace

void world_tri() {
  drawMemory(refusals());
  switch (pick(8)) {
    case 0: tri<int>(); break;
    case 1: tri<double>(); break;
    case 2: tri<Obj>(); break;
    case 3: tri<il::String>(); break;
    case 4: band<Band, double>(); break;
    case 5: band<Band, int>(); break;
    case 6: band<Tri, double>(); break;
    default: band<Tri, int>(); break;
  }
}
