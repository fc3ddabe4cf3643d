// Shared by the dense linear algebra worlds: exact descriptions of vectors and
// matrices, and the memory in which the library finds them.
#pragma once
#include <cmath>
#include <complex>
#include <vector>

#include <il/Array2CView.h>
#include <il/Array2DView.h>
#include <il/ArrayView.h>
#include <mkl_service.h>

#include "seq.h"


namespace dense {
using namespace seq;
typedef long double LD;
typedef std::complex<long double> CL;

template <typename T> struct Num;
template <> struct Num<float> {
  static const bool complex = false;
  static constexpr LD eps = 1.2e-7L;
  static float make(CL x) { return (float)x.real(); }
  static CL wide(float x) { return CL(x, 0); }
  static const char* name() { return "float"; }
};
template <> struct Num<double> {
  static const bool complex = false;
  static constexpr LD eps = 2.3e-16L;
  static double make(CL x) { return (double)x.real(); }
  static CL wide(double x) { return CL(x, 0); }
  static const char* name() { return "double"; }
};
template <> struct Num<std::complex<float>> {
  static const bool complex = true;
  static constexpr LD eps = 1.2e-7L;
  static std::complex<float> make(CL x) { return {(float)x.real(), (float)x.imag()}; }
  static CL wide(std::complex<float> x) { return CL(x.real(), x.imag()); }
  static const char* name() { return "complex<float>"; }
};
template <> struct Num<std::complex<double>> {
  static const bool complex = true;
  static constexpr LD eps = 2.3e-16L;
  static std::complex<double> make(CL x) { return {(double)x.real(), (double)x.imag()}; }
  static CL wide(std::complex<double> x) { return CL(x.real(), x.imag()); }
  static const char* name() { return "complex<double>"; }
};

inline LD unit(Stream& s) { return (LD)(s.next() >> 11) / 9007199254740992.0L; }
// form 0: small integers (every product and sum is exact), 1: in [-1, 1], 2: of
// different magnitudes
inline LD realOf(Stream& s, int form) {
  if (form == 0) return (LD)s.below(9) - 4;
  const LD u = 2 * unit(s) - 1;
  return form == 1 ? u : ldexpl(u, (int)s.below(24) - 12);
}
// a value that T represents
template <typename T>
CL valueOf(Stream& s, int form) {
  const LD re = realOf(s, form);
  const LD im = Num<T>::complex ? realOf(s, form) : 0;
  return Num<T>::wide(Num<T>::make(CL(re, im)));
}
template <typename T>
CL drawScalar(Stream& s, int form) {
  switch (draw(6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return 2;
    default: return valueOf<T>(s, form);
  }
}
template <typename T>
std::vector<CL> content(size_t n, Stream& s, int form) {
  std::vector<CL> v(n);
  for (auto& x : v) x = valueOf<T>(s, form);
  return v;
}

struct Mat {
  int m = 0, n = 0;
  std::vector<CL> a;
  Mat() {}
  Mat(int m_, int n_) : m{m_}, n{n_}, a((size_t)m_ * (size_t)n_) {}
  CL at(int i, int j) const { return a[(size_t)i * (size_t)n + (size_t)j]; }
  CL& at(int i, int j) { return a[(size_t)i * (size_t)n + (size_t)j]; }
  LD largest() const {
    LD t = 0;
    for (auto& x : a) t = std::max(t, (LD)std::abs(x));
    return t;
  }
  static Mat column(const std::vector<CL>& x) {
    Mat r{(int)x.size(), 1};
    r.a = x;
    return r;
  }
};
template <typename T>
Mat matrix(int m, int n, Stream& s, int form) {
  Mat r{m, n};
  for (auto& x : r.a) x = valueOf<T>(s, form);
  return r;
}

// What lies around the elements: never to be used, never to be changed.
template <typename T>
void markAt(void* p, size_t i) {
  // signalling patterns would be changed by a load; a quiet NaN with a payload
  unsigned char* c = static_cast<unsigned char*>(p);
  for (size_t k = 0; k < sizeof(T); ++k) c[k] = 0xFF;
  c[0] = (unsigned char)(i * 37 + 11);
}

// The elements of a matrix somewhere in a larger block.
template <typename T>
struct Block {
  T* p = nullptr;   // element (0, 0)
  char* raw = nullptr;
  int m, n, layout;
  il::int_t ld;
  size_t before, total;
  std::vector<unsigned char> was;
  Block(const Mat& a, int layout_, Stream& s) : m{a.m}, n{a.n}, layout{layout_} {
    const int inner = layout == 0 ? m : n, outer = layout == 0 ? n : m;
    ld = inner + (il::int_t)(draw(2) ? s.below(5) : 0);
    before = draw(2) ? s.below(4) : 0;
    total = before + (size_t)ld * (size_t)outer + (draw(2) ? s.below(4) : 0);
    raw = static_cast<char*>(rawAlloc(total * sizeof(T) + 1));
    p = reinterpret_cast<T*>(raw) + before;
    for (size_t i = 0; i < total; ++i) markAt<T>(raw + i * sizeof(T), i);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) p[at(i, j)] = Num<T>::make(a.at(i, j));
    keep();
  }
  Block(const Block&) = delete;
  ~Block() { rawFree(raw); }
  il::int_t at(int i, int j) const { return layout == 0 ? i + ld * j : j + ld * i; }
  void keep() { was.assign((unsigned char*)raw, (unsigned char*)raw + total * sizeof(T)); }
  // The elements are not to be read.
  void spoil() {
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) markAt<T>(&p[at(i, j)], (size_t)(i + 3 * j));
    keep();
  }
  void same(const char* what) const {
    SIM_CHECK(std::memcmp(was.data(), raw, total * sizeof(T)) == 0, "argument-changed", "%s changed an argument it only reads (%d x %d, %s)", what, m, n, Num<T>::name());
  }
  // Row by row.
  std::vector<CL> read(const char* what) {
    std::vector<CL> r;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) {
        r.push_back(Num<T>::wide(p[at(i, j)]));
        std::memcpy(&p[at(i, j)], &was[((size_t)at(i, j) + before) * sizeof(T)], sizeof(T));
      }
    SIM_CHECK(std::memcmp(was.data(), raw, total * sizeof(T)) == 0, "wrote-outside", "%s changed memory that is not an element of its result (%d x %d, %s)", what, m, n, Num<T>::name());
    return r;
  }
};
template <typename T>
struct Vec : Block<T> {
  static Stream& none() { static Stream s{0}; s = Stream{draw(1u << 16)}; return s; }
  int size;
  explicit Vec(const std::vector<CL>& x) : Block<T>{Mat::column(x), 0, none()}, size{(int)x.size()} {}
  il::ArrayView<T> view() const { return il::ArrayView<T>{this->p, size}; }
  il::ArrayEdit<T> edit() { return il::ArrayEdit<T>{this->p, size}; }
};

inline void prepare() {
  static bool once = false;
  if (once) return;
  once = true;
  mkl_cbwr_set(MKL_CBWR_COMPATIBLE);  // results do not depend on addresses
  mkl_disable_fast_mm();
}
}  // namespace dense
