// Products, sums and norms of dense vectors and matrices (C27).
#include <algorithm>
#include <cmath>
#include <complex>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <il/norm.h>

#include "dense.h"

using namespace seq;
using namespace dense;

namespace {

// ---- the entry points, for one element type and one layout ----------------
template <typename T, int L> struct Kind;
template <typename T> struct Kind<T, 0> {
  typedef il::Array2D<T> Owner;
  typedef il::Array2DView<T> View;
  typedef il::Array2DEdit<T> Edit;
};
template <typename T> struct Kind<T, 1> {
  typedef il::Array2C<T> Owner;
  typedef il::Array2CView<T> View;
  typedef il::Array2CEdit<T> Edit;
};

CL opOf(const Mat& a, il::Dot op, int i, int j) {
  if (op == il::Dot::None) return a.at(i, j);
  return op == il::Dot::Star ? std::conj(a.at(j, i)) : a.at(j, i);
}
const char* opName(il::Dot op) { return op == il::Dot::None ? "none" : op == il::Dot::Star ? "star" : "transpose"; }
il::Dot drawOp() { const uint64_t k = draw(3); return k == 0 ? il::Dot::None : k == 1 ? il::Dot::Transpose : il::Dot::Star; }

template <typename T>
struct World {
  typedef Num<T> N;
  int form = 0;  // of the content
  int order() { return (int)draw(draw(3) ? 5 : draw(3) ? 13 : thorough() ? 70 : 40); }
  CL scalar(Stream& s) { return drawScalar<T>(s, form); }

  // The result must be that of the definition.
  void judge(const char* what, const std::vector<CL>& want, const std::vector<LD>& slack, const std::vector<CL>& got) {
    SIM_CHECK(want.size() == got.size(), "wrong-size", "%s gave %zu elements instead of %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
      const LD e = std::abs(want[i] - got[i]);
      SIM_CHECK(e <= (form == 0 ? 0.0L : slack[i]), "wrong-value", "%s (%s): element %zu is (%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", what, N::name(), i,
                got[i].real(), got[i].imag(), want[i].real(), want[i].imag());
    }
    probe(form == 0 ? "exact" : "rounded");
  }

  bool vectors() {
    Stream s = stream();
    const int n = order();
    const CL alpha = scalar(s);
    CL beta = scalar(s);
    const bool scaled = draw(2) == 1;
    if (!scaled) beta = 1;
    const std::vector<CL> x = content<T>((size_t)n, s, form), y = content<T>((size_t)n, s, form);
    Vec<T> vx{x}, vy{y};
    const T ta = N::make(alpha), tb = N::make(beta);
    if (!sut("blas", [&] {
          if (scaled) il::blas(ta, vx.view(), tb, il::io, vy.edit());
          else il::blas(ta, vx.view(), il::io, vy.edit());
        })) return false;
    ev("axpby", N::name(), n, (int)scaled);
    std::vector<CL> want((size_t)n);
    std::vector<LD> slack((size_t)n);
    for (size_t i = 0; i < (size_t)n; ++i) {
      want[i] = alpha * x[i] + beta * y[i];
      slack[i] = 16 * N::eps * (std::abs(alpha) * std::abs(x[i]) + std::abs(beta) * std::abs(y[i]));
    }
    vx.same("blas(alpha, x, beta, y)");
    judge("blas(alpha, x, beta, y)", want, slack, vy.read("blas(alpha, x, beta, y)"));
    return true;
  }
  bool products() {
    Stream s = stream();
    const int n = order();
    const std::vector<CL> x = content<T>((size_t)n, s, form), y = draw(4) ? content<T>((size_t)n, s, form) : x;
    Vec<T> vx{x}, vy{y};
    const bool owned = draw(2) == 1;
    const int how = N::complex ? (int)draw(5) : 0;
    T ans{};
    if (!sut("dot", [&] {
          if (owned) {
            il::Array<T> ax{n}, ay{n};
            for (int i = 0; i < n; ++i) { ax[i] = vx.p[i]; ay[i] = vy.p[i]; }
            ans = dotOf(ax, ay, how);
          } else
            ans = dotOf(vx.view(), vy.view(), how);
        })) return false;
    ev("dot", N::name(), n, (int)owned, how);
    CL want = 0;
    LD slack = 0;
    for (size_t i = 0; i < (size_t)n; ++i) {
      want += (how == 1 ? std::conj(x[i]) : x[i]) * (how == 2 ? std::conj(y[i]) : y[i]);
      slack += std::abs(x[i]) * std::abs(y[i]);
    }
    vx.same("dot");
    vy.same("dot");
    judge("dot(x, y)", {want}, {slack * (n + 8) * 4 * N::eps}, {N::wide(ans)});
    return true;
  }
  template <typename R, typename V>
  typename std::enable_if<std::is_floating_point<R>::value, R>::type dotOfR(const V& x, const V& y, int) { return il::dot(x, y); }
  template <typename R, typename V>
  typename std::enable_if<!std::is_floating_point<R>::value, R>::type dotOfR(const V& x, const V& y, int how) {
    switch (how) {
      case 1: return il::dot(x, il::Dot::Star, y);
      case 2: return il::dot(x, y, il::Dot::Star);
      case 3: return il::dot(x, il::Dot::None, y);
      case 4: return il::dot(x, y, il::Dot::None);
      default: return il::dot(x, y);
    }
  }
  template <typename V> T dotOf(const V& x, const V& y, int how) { return dotOfR<T>(x, y, how); }

  // y = alpha op(A).x + beta y
  template <int L>
  bool matrixVector() {
    Stream s = stream();
    const int m = order(), n = order();
    const il::Dot op = drawOp();
    const CL alpha = scalar(s), beta = scalar(s);
    const Mat a = matrix<T>(m, n, s, form);
    const int nx = op == il::Dot::None ? n : m, ny = op == il::Dot::None ? m : n;
    const std::vector<CL> x = content<T>((size_t)nx, s, form);
    std::vector<CL> y = content<T>((size_t)ny, s, form);
    Block<T> ba{a, L, s};
    Vec<T> vx{x}, vy{y};
    // what is not read may be anything
    if (beta == CL(0) && draw(2)) vy.spoil();
    const T ta = N::make(alpha), tb = N::make(beta);
    const bool plain = op == il::Dot::None && draw(2);
    typedef typename Kind<T, L>::View View;
    if (!sut("blas", [&] {
          const View A{ba.p, m, n, ba.ld};
          if (plain) il::blas(ta, A, vx.view(), tb, il::io, vy.edit());
          else il::blas(ta, A, op, vx.view(), tb, il::io, vy.edit());
        })) return false;
    ev("gemv", N::name(), L, m, n, opName(op), (int)plain);
    std::vector<CL> want((size_t)ny);
    std::vector<LD> slack((size_t)ny);
    for (int i = 0; i < ny; ++i) {
      CL t = 0;
      LD w = 0;
      for (int j = 0; j < nx; ++j) {
        const CL e = opOf(a, op, i, j);
        t += e * x[(size_t)j];
        w += std::abs(e) * std::abs(x[(size_t)j]);
      }
      want[(size_t)i] = alpha * t + beta * y[(size_t)i];
      slack[(size_t)i] = (std::abs(alpha) * w + std::abs(beta) * std::abs(y[(size_t)i])) * (nx + 8) * 4 * N::eps;
    }
    ba.same("blas(alpha, A, x, beta, y)");
    vx.same("blas(alpha, A, x, beta, y)");
    judge("blas(alpha, A, x, beta, y)", want, slack, vy.read("blas(alpha, A, x, beta, y)"));
    return true;
  }
  // C = alpha op(A).op(B) + beta C
  template <int L>
  bool matrixMatrix() {
    Stream s = stream();
    const int m = order(), n = order(), k = order();
    const int how = (int)draw(4);  // which of the overloads
    const il::Dot opa = how & 1 ? drawOp() : il::Dot::None, opb = how & 2 ? drawOp() : il::Dot::None;
    const CL alpha = scalar(s), beta = scalar(s);
    const Mat a = opa == il::Dot::None ? matrix<T>(m, k, s, form) : matrix<T>(k, m, s, form);
    const Mat b = opb == il::Dot::None ? matrix<T>(k, n, s, form) : matrix<T>(n, k, s, form);
    const Mat c = matrix<T>(m, n, s, form);
    Block<T> ba{a, L, s}, bb{b, L, s}, bc{c, L, s};
    if (beta == CL(0) && draw(2)) bc.spoil();
    const T ta = N::make(alpha), tb = N::make(beta);
    typedef typename Kind<T, L>::View View;
    typedef typename Kind<T, L>::Edit Edit;
    if (!sut("blas", [&] {
          const View A{ba.p, a.m, a.n, ba.ld}, B{bb.p, b.m, b.n, bb.ld};
          const Edit C{bc.p, m, n, bc.ld, 0, 0};
          switch (how) {
            case 0: il::blas(ta, A, B, tb, il::io, C); break;
            case 1: il::blas(ta, A, opa, B, tb, il::io, C); break;
            case 2: il::blas(ta, A, B, opb, tb, il::io, C); break;
            default: il::blas(ta, A, opa, B, opb, tb, il::io, C);
          }
        })) return false;
    ev("gemm", N::name(), L, m, n, k, opName(opa), opName(opb));
    std::vector<CL> want;
    std::vector<LD> slack;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) {
        CL t = 0;
        LD w = 0;
        for (int l = 0; l < k; ++l) {
          const CL p = opOf(a, opa, i, l), q = opOf(b, opb, l, j);
          t += p * q;
          w += std::abs(p) * std::abs(q);
        }
        if (N::complex) w = k * a.largest() * b.largest();  // three products instead of four
        want.push_back(alpha * t + beta * c.at(i, j));
        slack.push_back((std::abs(alpha) * w + std::abs(beta) * std::abs(c.at(i, j))) * (k + 8) * 8 * N::eps);
      }
    ba.same("blas(alpha, A, B, beta, C)");
    bb.same("blas(alpha, A, B, beta, C)");
    judge("blas(alpha, A, B, beta, C)", want, slack, bc.read("blas(alpha, A, B, beta, C)"));
    return true;
  }
};

// Y = alpha X + beta Y for matrices (double and complex<double>)
template <typename T>
bool matrixSum(World<T>& w) {
  typedef Num<T> N;
  Stream s = stream();
  const int m = w.order(), n = w.order();
  const CL alpha = w.scalar(s), beta = w.scalar(s);
  const Mat x = matrix<T>(m, n, s, w.form), y = matrix<T>(m, n, s, w.form);
  Block<T> bx{x, 0, s}, by{y, 0, s};
  if (beta == CL(0) && draw(2)) by.spoil();
  const T ta = N::make(alpha), tb = N::make(beta);
  if (!sut("blas", [&] {
        il::blas(ta, il::Array2DView<T>{bx.p, m, n, bx.ld}, tb, il::io, il::Array2DEdit<T>{by.p, m, n, by.ld, 0, 0});
      })) return false;
  ev("matrix sum", N::name(), m, n);
  std::vector<CL> want;
  std::vector<LD> slack;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) {
      want.push_back(alpha * x.at(i, j) + beta * y.at(i, j));
      slack.push_back(16 * N::eps * (std::abs(alpha) * std::abs(x.at(i, j)) + std::abs(beta) * std::abs(y.at(i, j))));
    }
  bx.same("blas(alpha, X, beta, Y)");
  w.judge("blas(alpha, X, beta, Y)", want, slack, by.read("blas(alpha, X, beta, Y)"));
  return true;
}

// Fills an owning array whose capacity may be larger than its size.
template <typename A, typename T>
void fill(A& a, const Block<T>& b, int m, int n, int more0, int more1) {
  if (more0 + more1) a.Reserve(m + more0, n + more1);
  a.Resize(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) a(i, j) = b.p[b.at(i, j)];
}

// dot(A, x)
template <int L>
bool ownedVector(World<double>& w) {
  typedef typename Kind<double, L>::Owner Owner;
  Stream s = stream();
  const int m = w.order(), n = w.order();
  const int more0 = draw(2) ? (int)draw(5) : 0, more1 = draw(2) ? (int)draw(5) : 0;
  const Mat a = matrix<double>(m, n, s, w.form);
  const std::vector<CL> x = content<double>((size_t)n, s, w.form);
  Block<double> ba{a, L, s}, vx{Mat::column(x), 0, s};
  std::vector<CL> got;
  if (!sut("dot", [&] {
        Owner A{};
        fill(A, ba, m, n, more0, more1);
        il::Array<double> ax{n};
        for (int i = 0; i < n; ++i) ax[i] = vx.p[vx.at(i, 0)];
        const il::Array<double> y = il::dot(A, ax);
        Host h;
        for (il::int_t i = 0; i < y.size(); ++i) got.push_back(y[i]);
      })) return false;
  ev("dot matrix vector", L, m, n, more0, more1);
  std::vector<CL> want;
  std::vector<LD> slack;
  for (int i = 0; i < m; ++i) {
    CL t = 0;
    LD v = 0;
    for (int j = 0; j < n; ++j) { t += a.at(i, j) * x[(size_t)j]; v += std::abs(a.at(i, j)) * std::abs(x[(size_t)j]); }
    want.push_back(t);
    slack.push_back(v * (n + 8) * 4 * Num<double>::eps);
  }
  w.judge("dot(A, x)", want, slack, got);
  return true;
}
// dot(A, B)
template <typename T, int L>
bool ownedMatrix(World<T>& w) {
  typedef typename Kind<T, L>::Owner Owner;
  Stream s = stream();
  const int m = w.order(), n = w.order(), k = w.order();
  const int more0 = draw(2) ? (int)draw(5) : 0, more1 = draw(2) ? (int)draw(5) : 0;
  const Mat a = matrix<T>(m, k, s, w.form), b = matrix<T>(k, n, s, w.form);
  Block<T> ba{a, L, s}, bb{b, L, s};
  std::vector<CL> got;
  int gm = -1, gn = -1;
  if (!sut("dot", [&] {
        Owner A{}, B{};
        fill(A, ba, m, k, more0, more1);
        fill(B, bb, k, n, more1, more0);
        const Owner C = il::dot(A, B);
        Host h;
        gm = (int)C.size(0);
        gn = (int)C.size(1);
        for (int i = 0; i < gm; ++i)
          for (int j = 0; j < gn; ++j) got.push_back(C(i, j));
      })) return false;
  ev("dot matrix matrix", L, m, n, k, more0, more1);
  SIM_CHECK(gm == m && gn == n, "wrong-size", "dot(A, B) is %d x %d instead of %d x %d", gm, gn, m, n);
  std::vector<CL> want;
  std::vector<LD> slack;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) {
      CL t = 0;
      LD v = 0;
      for (int l = 0; l < k; ++l) { t += a.at(i, l) * b.at(l, j); v += std::abs(a.at(i, l)) * std::abs(b.at(l, j)); }
      want.push_back(t);
      slack.push_back(v * (k + 8) * 4 * Num<T>::eps);
    }
  w.judge("dot(A, B)", want, slack, got);
  return true;
}

// ---- norms -----------------------------------------------------------------
const char* norm_names[] = {"L1", "L2", "Linf"};
LD normOf(const std::vector<LD>& v, int kind) {
  LD t = 0;
  for (LD x : v) t = kind == 0 ? t + fabsl(x) : kind == 1 ? t + x * x : std::max(t, fabsl(x));
  return kind == 1 ? sqrtl(t) : t;
}
il::Norm normKind(int k) { return k == 0 ? il::Norm::L1 : k == 1 ? il::Norm::L2 : il::Norm::Linf; }

template <il::int_t n>
double staticNorm(const double* p, il::Norm k) {
  il::StaticArray<double, n> v{};
  for (il::int_t i = 0; i < n; ++i) v[i] = p[i];
  return il::norm(v, k);
}

bool norms(int form) {
  Stream s = stream();
  const int what = (int)draw(5);
  int kind = (int)draw(3);
  double got = 0;
  LD want = 0;
  std::string name;
  if (what <= 2) {
    const int n = what == 2 ? (int[]){1, 3, 8}[draw(3)] : (int)draw(draw(2) ? 5 : 40);
    std::vector<CL> c = content<double>((size_t)n, s, form), w = content<double>((size_t)n, s, 1);
    std::vector<double> x, alpha;
    std::vector<LD> v;
    const double f = draw(4) == 3 ? std::ldexp(1.0, (int)draw(800) - 400) : 1.0;
    for (int i = 0; i < n; ++i) {
      x.push_back((double)c[(size_t)i].real() * f);
      alpha.push_back(0.25 + std::fabs((double)w[(size_t)i].real()));
      v.push_back(what == 1 ? (LD)x.back() / alpha.back() : (LD)x.back());
    }
    if (!sut("norm", [&] {
          if (what == 2) {
            got = n == 1 ? staticNorm<1>(x.data(), normKind(kind)) : n == 3 ? staticNorm<3>(x.data(), normKind(kind)) : staticNorm<8>(x.data(), normKind(kind));
          } else {
            il::Array<double> a{n}, b{n};
            for (int i = 0; i < n; ++i) { a[i] = x[(size_t)i]; b[i] = alpha[(size_t)i]; }
            got = what == 1 ? il::norm(a, normKind(kind), b) : il::norm(a, normKind(kind));
          }
        })) return false;
    want = normOf(v, kind);
    name = what == 1 ? "weighted vector" : what == 2 ? "small vector" : "vector";
    ev("norm", name, n, kind);
  } else if (what == 3) {
    const int m = (int)draw(8), n = (int)draw(8);
    if (kind == 1) kind = 2;
    const Mat a = matrix<double>(m, n, s, form);
    Block<double> b{a, 0, s};
    const int more0 = draw(2) ? (int)draw(5) : 0;
    if (!sut("norm", [&] {
          il::Array2D<double> A{};
          fill(A, b, m, n, more0, 0);
          got = il::norm(A, normKind(kind));
        })) return false;
    for (int i = 0; i < (kind == 0 ? n : m); ++i) {
      LD t = 0;
      for (int j = 0; j < (kind == 0 ? m : n); ++j) t += std::abs(kind == 0 ? a.at(j, i) : a.at(i, j));
      want = std::max(want, t);
    }
    name = "matrix";
    ev("norm", name, m, n, kind);
  } else {
    const int n = (int)draw(6);
    kind = 2;
    const Mat a = matrix<double>(n, 3, s, form);
    Block<double> b{a, 0, s};
    if (!sut("norm", [&] {
          il::TriDiagonal<double> A{n};
          for (int i = 0; i < n; ++i)
            for (int k = -1; k <= 1; ++k)
              if (i + k >= 0 && i + k < n) A(i, k) = b.p[b.at(i, k + 1)];
          got = il::norm(A, il::Norm::Linf);
        })) return false;
    for (int i = 0; i < n; ++i) {
      LD t = 0;
      for (int k = -1; k <= 1; ++k)
        if (i + k >= 0 && i + k < n) t += std::abs(a.at(i, k + 1));
      want = std::max(want, t);
    }
    name = "tridiagonal matrix";
    ev("norm", name, n);
  }
  SIM_CHECK(fabsl((LD)got - want) <= want * 1e-13L, "wrong-norm", "the %s norm of a %s is %.17g instead of %.17Lg", norm_names[kind], name.c_str(), got, want);
  probe("norm");
  return true;
}

// ---- arrays of fixed size ----------------------------------------------------
// Values are small integers: every result is exact.
template <typename T, il::int_t n0, il::int_t n1, il::int_t n2, il::int_t n>
struct Fixed {
  Stream s;
  T v() { return (T)((int)s.below(15) - 7); }
  template <typename A> void set1(A& a, il::int_t k) { for (il::int_t i = 0; i < k; ++i) a[i] = v(); }
  template <typename A> void set2(A& a, il::int_t k0, il::int_t k1) {
    for (il::int_t i = 0; i < k0; ++i)
      for (il::int_t j = 0; j < k1; ++j) a(i, j) = v();
  }
  template <typename A> void set3(A& a, il::int_t k0, il::int_t k1, il::int_t k2) {
    for (il::int_t i = 0; i < k0; ++i)
      for (il::int_t j = 0; j < k1; ++j)
        for (il::int_t k = 0; k < k2; ++k) a(i, j, k) = v();
  }
  void is(const char* what, double got, double want) {
    SIM_CHECK(got == want, "wrong-value", "%s of arrays of fixed size (%ld %ld %ld %ld): %g instead of %g", what, (long)n0, (long)n1, (long)n2, (long)n, got, want);
  }
  void go() {
    // reading what was put in
    il::StaticArray<T, n> x{}, z{};
    set1(x, n);
    set1(z, n);
    double t = 0;
    for (il::int_t i = 0; i < n; ++i) t += (double)(x[i] * z[i]);
    is("dot(x, y)", (double)il::dot(x, z), t);

    il::StaticArray2D<T, n0, n> a{};
    set2(a, n0, n);
    il::StaticArray2D<T, n, n0> at{};
    il::StaticArray2D<T, n, n1> b{};
    set2(b, n, n1);
    for (il::int_t i = 0; i < n0; ++i)
      for (il::int_t j = 0; j < n; ++j) at(j, i) = a(i, j);
    const il::StaticArray<T, n0> ax = il::dot(a, x), atx = il::dot(at, il::Dot::Transpose, x);
    const T alpha = v(), beta = v();
    il::StaticArray<T, n0> y{};
    set1(y, n0);
    il::StaticArray<T, n0> y1 = y;
    il::blas((double)alpha, a, x, (double)beta, il::io, y1);
    for (il::int_t i = 0; i < n0; ++i) {
      t = 0;
      for (il::int_t j = 0; j < n; ++j) t += (double)(a(i, j) * x[j]);
      is("dot(A, x)", (double)ax[i], t);
      is("dot(A, transpose, x)", (double)atx[i], t);
      is("blas(alpha, A, x, beta, y)", (double)y1[i], (double)alpha * t + (double)beta * (double)y[i]);
    }
    const il::StaticArray<T, n1> xb = il::dot(x, b);
    for (il::int_t j = 0; j < n1; ++j) {
      t = 0;
      for (il::int_t i = 0; i < n; ++i) t += (double)(x[i] * b(i, j));
      is("dot(x, A)", (double)xb[j], t);
    }
    const il::StaticArray2D<T, n0, n1> ab = il::dot(a, b), atb = il::dot(at, il::Dot::Transpose, b);
    for (il::int_t i = 0; i < n0; ++i)
      for (il::int_t j = 0; j < n1; ++j) {
        t = 0;
        for (il::int_t k = 0; k < n; ++k) t += (double)(a(i, k) * b(k, j));
        is("dot(A, B)", (double)ab(i, j), t);
        is("dot(A, transpose, B)", (double)atb(i, j), t);
      }
    il::StaticArray3D<T, n, n1, n2> c{};
    set3(c, n, n1, n2);
    const il::StaticArray3D<T, n0, n1, n2> ac = il::dot(a, c);
    for (il::int_t i = 0; i < n0; ++i)
      for (il::int_t j = 0; j < n1; ++j)
        for (il::int_t k = 0; k < n2; ++k) {
          t = 0;
          for (il::int_t l = 0; l < n; ++l) t += (double)(a(i, l) * c(l, j, k));
          is("dot(matrix, 3D array)", (double)ac(i, j, k), t);
        }
    il::StaticArray3D<T, n0, n1, n> d{};
    set3(d, n0, n1, n);
    const il::StaticArray2D<T, n0, n1> dx = il::dot(d, x);
    il::StaticArray2D<T, n0, n1> e{};
    set2(e, n0, n1);
    il::StaticArray2D<T, n0, n1> e1 = e;
    il::blas((double)alpha, d, x, (double)beta, il::io, e1);
    for (il::int_t i = 0; i < n0; ++i)
      for (il::int_t j = 0; j < n1; ++j) {
        t = 0;
        for (il::int_t l = 0; l < n; ++l) t += (double)(d(i, j, l) * x[l]);
        is("dot(3D array, x)", (double)dx(i, j), t);
        is("blas(alpha, 3D array, x, beta, Y)", (double)e1(i, j), (double)alpha * t + (double)beta * (double)e(i, j));
      }
    il::StaticArray4D<T, n0, n1, n2, n> f{};
    for (il::int_t i = 0; i < n0; ++i)
      for (il::int_t j = 0; j < n1; ++j)
        for (il::int_t k = 0; k < n2; ++k)
          for (il::int_t l = 0; l < n; ++l) f(i, j, k, l) = v();
    const il::StaticArray3D<T, n0, n1, n2> fx = il::dot(f, x);
    il::StaticArray3D<T, n0, n1, n2> g{};
    set3(g, n0, n1, n2);
    il::StaticArray3D<T, n0, n1, n2> g1 = g, g2 = g;
    il::blas((double)alpha, f, x, (double)beta, il::io, g1);
    il::blas(alpha, fx, beta, il::io, g2);
    for (il::int_t i = 0; i < n0; ++i)
      for (il::int_t j = 0; j < n1; ++j)
        for (il::int_t k = 0; k < n2; ++k) {
          t = 0;
          for (il::int_t l = 0; l < n; ++l) t += (double)(f(i, j, k, l) * x[l]);
          is("dot(4D array, x)", (double)fx(i, j, k), t);
          is("blas(alpha, 4D array, x, beta, Y)", (double)g1(i, j, k), (double)alpha * t + (double)beta * (double)g(i, j, k));
          is("blas(alpha, X, beta, Y)", (double)g2(i, j, k), (double)alpha * t + (double)beta * (double)g(i, j, k));
        }
    // cross products
    il::StaticArray<T, 2> p{};
    set1(p, 2);
    const il::StaticArray<T, 2> q = il::cross(p);
    is("cross(x)", (double)q[0], -(double)p[1]);
    is("cross(x)", (double)q[1], (double)p[0]);
    il::StaticArray<T, 3> u{}, w{};
    set1(u, 3);
    set1(w, 3);
    const il::StaticArray<T, 3> uw = il::cross(u, w);
    for (int i = 0; i < 3; ++i) {
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      is("cross(x, y)", (double)uw[i], (double)(u[j] * w[k] - u[k] * w[j]));
    }
  }
};

template <typename T>
bool fixedSize() {
  Stream s = stream();
  const int k = (int)draw(5);
  ev("fixed size", k);
  return sut("an operation on arrays of fixed size", [&] {
    switch (k) {
      case 0: Fixed<T, 1, 1, 1, 1>{s}.go(); break;
      case 1: Fixed<T, 2, 3, 4, 5>{s}.go(); break;
      case 2: Fixed<T, 4, 1, 2, 3>{s}.go(); break;
      case 3: Fixed<T, 3, 3, 3, 3>{s}.go(); break;
      default: Fixed<T, 1, 5, 2, 2>{s}.go();
    }
  });
}

template <typename T> bool special(World<T>& w);
template <> bool special(World<float>& w) { return ownedMatrix<float, 0>(w); }
template <> bool special(World<double>& w) {
  switch (draw(5)) {
    case 0: return matrixSum(w);
    case 1: return ownedVector<0>(w);
    case 2: return ownedVector<1>(w);
    case 3: return ownedMatrix<double, 0>(w);
    default: return ownedMatrix<double, 1>(w);
  }
}
template <> bool special(World<std::complex<float>>& w) { return w.products(); }
template <> bool special(World<std::complex<double>>& w) { return matrixSum(w); }

template <typename T>
bool one(int form) {
  World<T> w;
  w.form = form;
  switch (draw(7)) {
    case 0: return w.vectors();
    case 1: return w.products();
    case 2: return w.template matrixVector<0>();
    case 3: return w.template matrixVector<1>();
    case 4: return w.template matrixMatrix<0>();
    case 5: return w.template matrixMatrix<1>();
    default: return special(w);
  }
}
}  // namespace

void world_dense() {
  prepare();
  drawMemory(refusals());
  const uint64_t nb = 1 + draw(4);
  nontrivial();
  for (uint64_t k = 0; k < nb; ++k) {
    const int form = (int)draw(3);
    bool fine = true;
    switch (draw(8)) {
      case 0: fine = norms(form); break;
      case 1: fine = draw(2) ? fixedSize<double>() : fixedSize<int>(); break;
      case 2: case 3: fine = one<double>(form); break;
      case 4: fine = one<float>(form); break;
      case 5: fine = one<std::complex<float>>(form); break;
      default: fine = one<std::complex<double>>(form); break;
    }
    if (!fine) return;
  }
  checkAllReleased();
}
