// Linear systems, factorizations, eigenvalues and singular values (C28).
#include <algorithm>
#include <cmath>
#include <complex>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/BandArray2C.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/norm.h>

#include "dense.h"

using namespace seq;
using namespace dense;

// ---- faults inside of Lapack --------------------------------------------------
// One call that needs memory is refused it, or one iteration does not converge.
namespace {
struct Plan {
  int refuse_at = 0, stall_at = 0;  // the call, counted from 1
  int calls = 0, loops = 0;
  bool refused = false, stalled = false;
} g_plan;
bool refuse() {
  if (++g_plan.calls != g_plan.refuse_at) return false;
  Host h;
  fault("lapack-out-of-memory");
  return g_plan.refused = true;
}
bool stall() {
  if (++g_plan.loops != g_plan.stall_at) return false;
  Host h;
  fault("lapack-no-convergence");
  return g_plan.stalled = true;
}
const lapack_int kNoWork = -1010, kNoTranspose = -1011;
}  // namespace
#define REFUSABLE(name, declaration, call)                             \
  extern "C" lapack_int __real_LAPACKE_##name declaration;             \
  extern "C" lapack_int __wrap_LAPACKE_##name declaration;             \
  lapack_int __wrap_LAPACKE_##name declaration {                       \
    if (refuse()) return layout == LAPACK_ROW_MAJOR ? kNoTranspose : kNoWork; \
    return __real_LAPACKE_##name call;                                 \
  }
#define STALLABLE(name, declaration, call)                             \
  extern "C" lapack_int __real_LAPACKE_##name declaration;             \
  extern "C" lapack_int __wrap_LAPACKE_##name declaration;             \
  lapack_int __wrap_LAPACKE_##name declaration {                       \
    if (refuse()) return kNoWork;                                      \
    const lapack_int r = __real_LAPACKE_##name call;                   \
    return r == 0 && stall() ? 1 : r;                                  \
  }
typedef lapack_complex_double lz;
typedef lapack_int li;
REFUSABLE(dgesv, (int layout, li n, li k, double* a, li lda, li* p, double* b, li ldb), (layout, n, k, a, lda, p, b, ldb))
REFUSABLE(dgtsv, (int layout, li n, li k, double* l, double* d, double* u, double* b, li ldb), (layout, n, k, l, d, u, b, ldb))
REFUSABLE(dgbsv, (int layout, li n, li kl, li ku, li k, double* a, li lda, li* p, double* b, li ldb), (layout, n, kl, ku, k, a, lda, p, b, ldb))
REFUSABLE(dgetri, (int layout, li n, double* a, li lda, const li* p), (layout, n, a, lda, p))
REFUSABLE(zgetri, (int layout, li n, lz* a, li lda, const li* p), (layout, n, a, lda, p))
REFUSABLE(dgecon, (int layout, char norm, li n, const double* a, li lda, double anorm, double* r), (layout, norm, n, a, lda, anorm, r))
REFUSABLE(dgeqrf, (int layout, li m, li n, double* a, li lda, double* tau), (layout, m, n, a, lda, tau))
REFUSABLE(zgeqrf, (int layout, li m, li n, lz* a, li lda, lz* tau), (layout, m, n, a, lda, tau))
REFUSABLE(dgehrd, (int layout, li n, li lo, li hi, double* a, li lda, double* tau), (layout, n, lo, hi, a, lda, tau))
STALLABLE(dhseqr, (int layout, char job, char compz, li n, li lo, li hi, double* h, li ldh, double* wr, double* wi, double* z, li ldz),
          (layout, job, compz, n, lo, hi, h, ldh, wr, wi, z, ldz))
REFUSABLE(dgebrd, (int layout, li m, li n, double* a, li lda, double* d, double* e, double* q, double* p), (layout, m, n, a, lda, d, e, q, p))
REFUSABLE(zgebrd, (int layout, li m, li n, lz* a, li lda, double* d, double* e, lz* q, lz* p), (layout, m, n, a, lda, d, e, q, p))
STALLABLE(dbdsqr, (int layout, char uplo, li n, li ncvt, li nru, li ncc, double* d, double* e, double* vt, li ldvt, double* u, li ldu, double* c, li ldc),
          (layout, uplo, n, ncvt, nru, ncc, d, e, vt, ldvt, u, ldu, c, ldc))
STALLABLE(zbdsqr, (int layout, char uplo, li n, li ncvt, li nru, li ncc, double* d, double* e, lz* vt, li ldvt, lz* u, li ldu, lz* c, li ldc),
          (layout, uplo, n, ncvt, nru, ncc, d, e, vt, ldvt, u, ldu, c, ldc))

namespace {
const LD kEps = 2.3e-16L;

enum Form { kEasy, kPermuted, kUniform, kGraded, kIllConditioned, kZeroColumn, kZeroRow, kTriangle, kForms };
const char* form_names[] = {"easy", "permuted", "uniform", "graded", "ill-conditioned", "zero column", "zero row", "triangular"};

Mat product(const Mat& a, const Mat& b) {
  Mat c{a.m, b.n};
  for (int i = 0; i < a.m; ++i)
    for (int j = 0; j < b.n; ++j)
      for (int l = 0; l < a.n; ++l) c.at(i, j) += a.at(i, l) * b.at(l, j);
  return c;
}
Mat adjoint(const Mat& a) {
  Mat c{a.n, a.m};
  for (int i = 0; i < a.m; ++i)
    for (int j = 0; j < a.n; ++j) c.at(j, i) = std::conj(a.at(i, j));
  return c;
}
LD normInf(const Mat& a) {
  LD t = 0;
  for (int i = 0; i < a.m; ++i) {
    LD r = 0;
    for (int j = 0; j < a.n; ++j) r += std::abs(a.at(i, j));
    t = std::max(t, r);
  }
  return t;
}
LD norm1(const Mat& a) { return normInf(adjoint(a)); }
template <typename T>
void roundTo(Mat& a) {
  for (auto& x : a.a) x = Num<T>::wide(Num<T>::make(x));
}
template <typename T>
Mat unitary(int n, Stream& s) {
  Mat q{n, n};
  for (int i = 0; i < n; ++i) q.at(i, i) = 1;
  for (int k = 0; k < 3; ++k) {
    std::vector<CL> v = content<T>((size_t)n, s, 1);
    LD t = 0;
    for (auto& x : v) t += std::norm(x);
    if (t < 1e-6L) continue;
    Mat h{n, n};
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) h.at(i, j) = (i == j ? 1.0L : 0.0L) - 2.0L * v[(size_t)i] * std::conj(v[(size_t)j]) / t;
    q = product(q, h);
  }
  return q;
}
// A square matrix; lower and upper: widths of its band.
template <typename T>
Mat square(int n, int form, Stream& s, int lower = 1 << 20, int upper = 1 << 20) {
  Mat a{n, n};
  auto in = [&](int i, int j) { return i - j <= lower && j - i <= upper; };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (in(i, j)) a.at(i, j) = valueOf<T>(s, 1);
  const int z = (int)s.below((uint64_t)n);
  switch (form) {
    case kEasy: case kPermuted: case kTriangle: {
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) a.at(i, j) = i == j ? CL(s.below(2) ? 2 : -2) + a.at(i, j) * 0.5L : form == kTriangle && i < j ? CL(0) : a.at(i, j) / (LD)n;
      if (form == kPermuted && lower >= n && upper >= n) {
        std::vector<int> p((size_t)n);
        for (int i = 0; i < n; ++i) p[(size_t)i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(p[(size_t)i], p[s.below((uint64_t)i + 1)]);
        Mat b{n, n};
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) b.at(p[(size_t)i], j) = a.at(i, j);
        a = b;
      }
      break;
    }
    case kGraded: {
      for (int i = 0; i < n; ++i) {
        const LD f = ldexpl(1, (int)s.below(60) - 30);
        for (int j = 0; j < n; ++j) a.at(i, j) *= f;
      }
      break;
    }
    case kIllConditioned:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) a.at(i, j) = in(i, j) ? CL(1) / CL(i + j + 1) : CL(0);
      break;
    case kZeroColumn: for (int i = 0; i < n; ++i) a.at(i, z) = 0; break;
    case kZeroRow: for (int j = 0; j < n; ++j) a.at(z, j) = 0; break;
    default: break;
  }
  roundTo<T>(a);
  return a;
}
bool singular(int form) { return form == kZeroColumn || form == kZeroRow; }
bool regular(int form) { return form == kEasy || form == kPermuted || form == kTriangle; }

bool finite(const Mat& x) {
  for (auto& v : x.a)
    if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) return false;
  return true;
}
// A.X = B up to rounding (backward stable).
void solves(const char* what, const Mat& a, const Mat& x, const Mat& b, LD growth = 1) {
  SIM_CHECK(x.m == a.n && x.n == b.n, "wrong-size", "%s: the solution is %d x %d", what, x.m, x.n);
  SIM_CHECK(finite(x), "wrong-solution", "%s: the solution is not finite", what);
  for (int j = 0; j < b.n; ++j) {
    LD xm = 0, bm = 0, r = 0;
    for (int i = 0; i < x.m; ++i) xm = std::max(xm, (LD)std::abs(x.at(i, j)));
    for (int i = 0; i < b.m; ++i) {
      CL t = b.at(i, j);
      bm = std::max(bm, (LD)std::abs(t));
      for (int l = 0; l < a.n; ++l) t -= a.at(i, l) * x.at(l, j);
      r = std::max(r, (LD)std::abs(t));
    }
    const LD slack = growth * 200.0L * (a.n + 3) * kEps * (normInf(a) * xm + bm);
    SIM_CHECK(r <= slack, "wrong-solution", "%s: the residual of column %d is %.3Lg, and rounding explains %.3Lg (order %d)", what, j, r, slack, a.n);
  }
  probe("solved");
}
void close(const char* what, const Mat& got, const Mat& want, LD slack) {
  SIM_CHECK(got.m == want.m && got.n == want.n, "wrong-size", "%s is %d x %d instead of %d x %d", what, got.m, got.n, want.m, want.n);
  for (int i = 0; i < want.m; ++i)
    for (int j = 0; j < want.n; ++j)
      SIM_CHECK(std::abs(got.at(i, j) - want.at(i, j)) <= slack, "wrong-value", "%s: element (%d, %d) is (%.9Lg, %.9Lg) instead of (%.9Lg, %.9Lg)", what, i, j,
                got.at(i, j).real(), got.at(i, j).imag(), want.at(i, j).real(), want.at(i, j).imag());
  probe("compared");
}

// What is around the elements of an owning array: spare capacity.
template <typename A, typename T>
void fill(A& a, const T* p, int m, int n, int more0, int more1) {
  if (more0 + more1) a.Reserve(m + more0, n + more1);
  a.Resize(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) a(i, j) = p[i * n + j];
}
template <typename T>
std::vector<T> plain(const Mat& a) {
  std::vector<T> r(a.a.size());
  for (size_t i = 0; i < r.size(); ++i) r[i] = Num<T>::make(a.a[i]);
  return r;
}
template <typename A>
Mat taken(const A& a) {  // called under sut
  Host h;
  Mat r{(int)a.size(0), (int)a.size(1)};
  for (int i = 0; i < r.m; ++i)
    for (int j = 0; j < r.n; ++j) r.at(i, j) = CL(a(i, j));
  return r;
}
Mat takenVector(const il::Array<double>& a) {
  Host h;
  Mat r{(int)a.size(), 1};
  for (int i = 0; i < r.m; ++i) r.at(i, 0) = a[i];
  return r;
}
int order() { return 1 + (int)draw(draw(3) ? 4 : draw(3) ? 12 : thorough() ? 60 : 30); }
int more() { return draw(2) ? (int)draw(5) : 0; }

struct Answer {
  bool ok = false;
  int error = -1;
  bool after_refusal = false, after_stall = false;
  void of(il::Status& s) {
    ok = s.Ok();
    if (!ok) error = (int)s.error();
    after_refusal = g_plan.refused;
    after_stall = g_plan.stalled;
  }
};
// One operation.  Memory that Lapack could not have is never ignored, and never
// taken for a property of the matrix: the process stops, or an error that says
// something else is given.
template <typename F>
bool lap(const char* what, F&& f, const Answer* r = nullptr) {
  if (t_ctx.over) return false;
  const uint64_t failed = g_astats.failed;
  const End end = guarded(f);
  if (end == End::Died) {
    if (g_astats.failed == failed && !g_plan.refused)
      violate("process-stop", "%s stopped the process (%s) although no memory was refused", what, g_death);
    t_ctx.over = true;
    probe("stopped-by-refused-memory");
    return false;
  }
  if (g_astats.failed != failed) {
    t_ctx.over = true;
    return false;
  }
  if (g_plan.refused) {
    SIM_CHECK(r && r->after_refusal && !r->ok, "memory-ignored", "%s went on although Lapack could not have its memory", what);
    SIM_CHECK(r->error != (int)il::Error::MatrixSingular && r->error != (int)il::Error::MatrixEigenValueNoConvergence, "memory-as-singular",
              "%s took the memory that Lapack could not have for a property of the matrix (error %d)", what, r->error);
    t_ctx.over = true;
    return false;
  }
  if (g_plan.stalled) {
    SIM_CHECK(r && r->after_stall && !r->ok, "convergence-ignored", "%s reported success although Lapack did not converge", what);
    probe("no-convergence-reported");
    t_ctx.over = true;
    return false;
  }
  return true;
}
void judgeStatus(const char* what, int form, const Answer& r) {
  if (singular(form)) {
    SIM_CHECK(!r.ok, "singular-not-reported", "%s did not report a singular matrix (%s)", what, form_names[form]);
    SIM_CHECK(r.error == (int)il::Error::MatrixSingular, "wrong-error", "%s reported error %d for a singular matrix", what, r.error);
    probe("singular-reported");
  } else if (regular(form)) {
    SIM_CHECK(r.ok, "spurious-error", "%s reported error %d for a matrix that is regular (%s)", what, r.error, form_names[form]);
  }
}

// ---- linearSolve -----------------------------------------------------------
template <typename Owner>
bool systems(const char* what) {
  Stream s = stream();
  const int n = order(), form = (int)draw(kForms);
  const Mat a = square<double>(n, form, s), b = matrix<double>(n, 1, s, (int)draw(2));
  const std::vector<double> pa = plain<double>(a), pb = plain<double>(b);
  const double *qa = pa.data(), *qb = pb.data();
  const int m0 = more(), m1 = more();
  const bool moved = draw(2) == 1;
  Mat x, kept;
  Answer r;
  if (!lap("linearSolve", [&] {
        Owner A{};
        fill(A, qa, n, n, m0, m1);
        il::Array<double> y{n};
        for (int i = 0; i < n; ++i) y[i] = qb[i];
        il::Status status{};
        if (moved) {
          const il::Array<double> ix = il::linearSolve(std::move(A), std::move(y), il::io, status);
          x = takenVector(ix);
        } else {
          const il::Array<double> ix = il::linearSolve(A, y, il::io, status);
          x = takenVector(ix);
          kept = taken(A);
          const Mat ky = takenVector(y);
          SIM_CHECK(ky.a == b.a, "argument-changed", "linearSolve changed its right-hand side");
        }
        r.of(status);
      }, &r)) return false;
  ev(what, n, form_names[form], m0, m1, (int)moved, (int)r.ok);
  if (!moved) SIM_CHECK(kept.a == a.a, "argument-changed", "linearSolve changed its matrix");
  judgeStatus(what, form, r);
  if (r.ok) solves(what, a, x, b);
  return true;
}
bool bandSystems() {
  Stream s = stream();
  const int n = order(), form = (int)draw(kForms);
  const int wl = (int)draw(draw(2) ? 3 : (uint64_t)n + 1), wr = (int)draw(draw(2) ? 3 : (uint64_t)n + 1);
  const bool same = draw(4) == 3;
  Mat a = square<double>(n, form == kPermuted ? kEasy : form, s, wl, same ? wl : wr);
  const int ku = same ? wl : wr;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i - j > wl || j - i > ku) a.at(i, j) = 0;
  const Mat b = matrix<double>(n, 1, s, (int)draw(2));
  const std::vector<double> pa = plain<double>(a), pb = plain<double>(b);
  const double *qa = pa.data(), *qb = pb.data();
  Mat x;
  Answer r;
  if (!lap("linearSolve", [&] {
        il::BandArray2C<double> A = same ? il::BandArray2C<double>{n, wl} : il::BandArray2C<double>{n, n, wl, wr};
        for (int i = 0; i < n; ++i)
          for (int k = -wl; k <= ku; ++k)
            if (i + k >= 0 && i + k < n) A(i, k) = qa[i * n + i + k];
        il::Array<double> y{n};
        for (int i = 0; i < n; ++i) y[i] = qb[i];
        il::Status status{};
        const il::Array<double> ix = il::linearSolve(std::move(A), y, il::io, status);
        x = takenVector(ix);
        r.of(status);
      }, &r)) return false;
  ev("band system", n, wl, ku, form_names[form], (int)r.ok);
  judgeStatus("linearSolve(band)", form, r);
  if (r.ok) solves("linearSolve(band)", a, x, b);
  return true;
}
bool triSystems() {
  Stream s = stream();
  const int n = order(), form = (int)draw(kForms);
  Mat a = square<double>(n, form == kPermuted ? kEasy : form, s, 1, 1);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (std::abs(i - j) > 1) a.at(i, j) = 0;
  const Mat b = matrix<double>(n, 1, s, (int)draw(2));
  const std::vector<double> pa = plain<double>(a), pb = plain<double>(b);
  const double *qa = pa.data(), *qb = pb.data();
  Mat x;
  Answer r;
  if (!lap("linearSolve", [&] {
        il::TriDiagonal<double> A{n};
        for (int i = 0; i < n; ++i)
          for (int k = -1; k <= 1; ++k)
            if (i + k >= 0 && i + k < n) A(i, k) = qa[i * n + i + k];
        il::Array<double> y{n};
        for (int i = 0; i < n; ++i) y[i] = qb[i];
        il::Status status{};
        const il::Array<double> ix = il::linearSolve(std::move(A), y, il::io, status);
        x = takenVector(ix);
        r.of(status);
      }, &r)) return false;
  ev("tridiagonal system", n, form_names[form], (int)r.ok);
  judgeStatus("linearSolve(tridiagonal)", form, r);
  if (r.ok) solves("linearSolve(tridiagonal)", a, x, b);
  return true;
}

// The rows of p, in some order, are those of a.
void samePermuted(const char* what, const Mat& p, const Mat& a, LD slack) {
  std::vector<char> used((size_t)a.m, 0);
  for (int i = 0; i < p.m; ++i) {
    int best = -1;
    LD at = 0;
    for (int k = 0; k < a.m; ++k) {
      if (used[(size_t)k]) continue;
      LD d = 0;
      for (int j = 0; j < a.n; ++j) d = std::max(d, (LD)std::abs(p.at(i, j) - a.at(k, j)));
      if (best < 0 || d < at) { best = k; at = d; }
    }
    used[(size_t)best] = 1;
    SIM_CHECK(at <= slack, "wrong-factors", "%s: row %d of L.U is not a row of the matrix (difference %.3Lg)", what, i, at);
  }
}
// The determinant, in extended precision.
CL determinant(Mat a) {
  CL d = 1;
  for (int k = 0; k < a.n; ++k) {
    int p = k;
    for (int i = k + 1; i < a.n; ++i)
      if (std::abs(a.at(i, k)) > std::abs(a.at(p, k))) p = i;
    if (a.at(p, k) == CL(0)) return 0;
    if (p != k) {
      d = -d;
      for (int j = 0; j < a.n; ++j) std::swap(a.at(p, j), a.at(k, j));
    }
    d *= a.at(k, k);
    for (int i = k + 1; i < a.n; ++i) {
      const CL f = a.at(i, k) / a.at(k, k);
      for (int j = k; j < a.n; ++j) a.at(i, j) -= f * a.at(k, j);
    }
  }
  return d;
}
Mat identity(int n) {
  Mat a{n, n};
  for (int i = 0; i < n; ++i) a.at(i, i) = 1;
  return a;
}

bool factors() {
  typedef il::LU<il::Array2D<double>> LU;
  Stream s = stream();
  const int form = (int)draw(kForms);
  const bool rect = draw(8) == 7;
  int m = order(), n = m;
  Mat a = square<double>(n, form, s);
  if (rect) { n = order(); a = matrix<double>(m, n, s, 1); }
  const std::vector<double> pa = plain<double>(a);
  const double* qa = pa.data();
  const int m0 = more(), m1 = more();
  const int nrhs = (int)draw(4);
  const int y0 = more(), y1 = more();
  const Mat b1 = matrix<double>(m, 1, s, (int)draw(2)), b2 = matrix<double>(m, nrhs, s, 1);
  const std::vector<double> pb1 = plain<double>(b1), pb2 = plain<double>(b2);
  const double *q1 = pb1.data(), *q2 = pb2.data();
  Answer r;
  Mat x1, x2, inv, l{m, std::min(m, n)}, u{std::min(m, n), n};
  double det = 0, cond1 = 0, condi = 0;
  const double na1 = (double)norm1(a), nai = (double)normInf(a);
  int s0 = -1, s1 = -1;
  const bool square_ok = !rect || m == n;
  if (!lap("LU", [&] {
        il::Array2D<double> A{};
        fill(A, qa, m, n, m0, m1);
        il::Status status{};
        const LU lu{std::move(A), il::io, status};
        r.of(status);
        if (!r.ok) return;
        s0 = (int)lu.size(0);
        s1 = (int)lu.size(1);
        {
          for (int i = 0; i < m; ++i)
            for (int j = 0; j < std::min(m, n); ++j) l.at(i, j) = i == j ? CL(1) : j < i ? CL(lu.L(i, j)) : CL(0);
          for (int i = 0; i < std::min(m, n); ++i)
            for (int j = i; j < n; ++j) u.at(i, j) = lu.U(i, j);
        }
        if (!square_ok) return;
        il::Array<double> y{n};
        for (int i = 0; i < n; ++i) y[i] = q1[i];
        x1 = takenVector(lu.solve(std::move(y)));
        il::Array2D<double> Y{};
        fill(Y, q2, n, nrhs, y0, y1);
        if (nrhs) x2 = taken(lu.solve(std::move(Y)));
        inv = taken(lu.inverse());
        det = lu.determinant();
        cond1 = lu.conditionNumber(il::Norm::L1, na1);
        condi = lu.conditionNumber(il::Norm::Linf, nai);
      }, &r)) return false;
  ev("LU", m, n, form_names[form], m0, m1, nrhs, y0, y1, (int)r.ok);
  if (!rect) judgeStatus("LU", form, r);
  if (!r.ok) return true;
  SIM_CHECK(s0 == m && s1 == n, "wrong-size", "LU::size gives %d x %d instead of %d x %d", s0, s1, m, n);
  samePermuted("LU", product(l, u), a, 200.0L * (n + 3) * kEps * std::max((LD)1e-300L, a.largest()) * (form == kGraded ? 4 : 1));
  for (auto& v : l.a) SIM_CHECK(std::abs(v) <= 1.0L, "wrong-factors", "LU: an element of L is larger than 1 (no partial pivoting)");
  if (!square_ok) return true;
  solves("LU::solve", a, x1, b1);
  if (nrhs) solves("LU::solve (many)", a, x2, b2);
  const CL d = determinant(a);
  LD hadamard = 1;  // the determinant is at most the product of the norms of the rows
  for (int i = 0; i < n; ++i) {
    LD t = 0;
    for (int j = 0; j < n; ++j) t += std::norm(a.at(i, j));
    hadamard *= sqrtl(t);
  }
  SIM_CHECK(fabsl((LD)det - d.real()) <= 200.0L * n * (n + 3) * kEps * hadamard, "wrong-determinant", "LU::determinant is %.9g instead of %.9Lg (order %d)", det, d.real(), n);
  if (regular(form)) {
    solves("LU::inverse", a, inv, identity(n));
    const LD k1 = norm1(a) * norm1(inv), ki = normInf(a) * normInf(inv);
    SIM_CHECK(cond1 <= k1 * (1 + 1e-6L) && cond1 >= k1 / (10 * n), "wrong-condition", "the condition number (L1) is %.6g instead of %.6Lg", cond1, k1);
    SIM_CHECK(condi <= ki * (1 + 1e-6L) && condi >= ki / (10 * n), "wrong-condition", "the condition number (Linf) is %.6g instead of %.6Lg", condi, ki);
    probe("inverse");
  }
  return true;
}

template <typename T, int n>
bool fixedFactors() {
  typedef il::StaticArray2D<T, n, n> S;
  Stream s = stream();
  static const int forms[] = {kEasy, kPermuted, kUniform, kZeroColumn, kZeroRow, kTriangle};
  const int form = forms[draw(6)];
  const Mat a = square<T>(n, form, s);
  const std::vector<T> pa = plain<T>(a);
  const T* qa = pa.data();
  Answer r;
  Mat inv;
  if (!lap("LU", [&] {
        S A{};
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) A(i, j) = qa[i * n + j];
        il::Status status{};
        const il::LU<S> lu{A, il::io, status};
        r.of(status);
        if (!r.ok) return;
        const S i = lu.inverse();
        Host h;
        inv = Mat{n, n};
        for (int k = 0; k < n; ++k)
          for (int l = 0; l < n; ++l) inv.at(k, l) = Num<T>::wide(i(k, l));
      }, &r)) return false;
  ev("fixed LU", Num<T>::name(), n, form_names[form], (int)r.ok);
  judgeStatus("LU of fixed size", form, r);
  if (r.ok && regular(form)) solves("LU::inverse of fixed size", a, inv, identity(n));
  return true;
}

// ---- in-place factorization and triangular systems ---------------------------
template <typename T>
Mat lowerOf(const Mat& a) {
  Mat l = identity(a.n);
  for (int i = 0; i < a.n; ++i)
    for (int j = 0; j < i; ++j) l.at(i, j) = a.at(i, j);
  return l;
}
Mat upperOf(const Mat& a) {
  Mat u{a.m, a.n};
  for (int i = 0; i < a.m; ++i)
    for (int j = i; j < a.n; ++j) u.at(i, j) = a.at(i, j);
  return u;
}
Mat transposed(const Mat& a) {
  Mat c{a.n, a.m};
  for (int i = 0; i < a.m; ++i)
    for (int j = 0; j < a.n; ++j) c.at(j, i) = a.at(i, j);
  return c;
}
template <typename T>
Mat asMatrix(int m, int n, const std::vector<CL>& v) {
  Mat r{m, n};
  r.a = v;
  return r;
}
// What the interchanges do to the rows.
Mat interchanged(const Mat& b, const std::vector<int>& p) {
  Mat r = b;
  for (size_t i = 0; i < p.size(); ++i)
    if (p[i] - 1 != (int)i)
      for (int j = 0; j < b.n; ++j) std::swap(r.at((int)i, j), r.at(p[i] - 1, j));
  return r;
}

template <typename T>
bool inPlace() {
  Stream s = stream();
  const int n = order();
  static const int forms[] = {kEasy, kPermuted, kTriangle};
  const int form = forms[draw(3)];
  const Mat a = square<T>(n, form, s);
  const int nrhs = 1 + (int)draw(5);
  const Mat b = matrix<T>(n, nrhs, s, 1), c = matrix<T>(nrhs, n, s, 1);
  Block<T> ba{a, 0, s};
  std::vector<int> pivot((size_t)n, -7);
  int* pp = pivot.data();
  if (!lap("luDecomposition", [&] {
        il::luDecomposition(il::io, il::ArrayEdit<int>{pp, n}, il::Array2DEdit<T>{ba.p, n, n, ba.ld, 0, 0});
      })) return false;
  ev("luDecomposition", Num<T>::name(), n, form_names[form], nrhs);
  const Mat f = asMatrix<T>(n, n, ba.read("luDecomposition"));
  for (int i = 0; i < n; ++i) SIM_CHECK(pivot[(size_t)i] > i && pivot[(size_t)i] <= n, "wrong-pivot", "luDecomposition: pivot %d is %d (order %d)", i, pivot[(size_t)i], n);
  const Mat l = lowerOf<T>(f), u = upperOf(f);
  const LD slack = 200.0L * (n + 3) * kEps * normInf(a);
  close("luDecomposition: L.U", product(l, u), interchanged(a, pivot), slack);
  for (auto& v : l.a) SIM_CHECK(std::abs(v.real()) + std::abs(v.imag()) <= 1.5L, "wrong-factors", "luDecomposition: an element of L is larger than 1 (no partial pivoting)");

  // the factors, where they are to be read
  Block<T> bf{f, 0, s};
  const il::Array2DView<T> F{bf.p, n, n, bf.ld};
  const il::ArrayView<int> P{pp, n};
  const int what = (int)draw(8);
  const int rows = what == 6 ? nrhs : n, cols = what == 6 ? n : what == 4 || what == 5 ? 1 : nrhs;
  const Mat rhs = what == 6 ? c : [&] { Mat t{n, cols}; for (int i = 0; i < n; ++i) for (int j = 0; j < cols; ++j) t.at(i, j) = b.at(i, j); return t; }();
  Block<T> by{rhs, 0, s};
  const il::Array2DEdit<T> Y{by.p, rows, cols, by.ld, 0, 0};
  const il::ArrayEdit<T> y{by.p, n};
  const char* names[] = {"solve(P, Y)", "solve(L, Y)", "solve(U, Y)", "solve(P, L, Y)", "solve(U, y)", "solve(P, L, y)", "solveRight(U, X)", "solve(U, transpose, Y)"};
  if (!lap("solve", [&] {
        switch (what) {
          case 0: il::solve(P, il::io, Y); break;
          case 1: il::solve(F, il::MatrixType::LowerUnit, il::io, Y); break;
          case 2: il::solve(F, il::MatrixType::UpperNonUnit, il::io, Y); break;
          case 3: il::solve(P, F, il::MatrixType::LowerUnit, il::io, Y); break;
          case 4: il::solve(F, il::MatrixType::UpperNonUnit, il::io, y); break;
          case 5: il::solve(P, F, il::MatrixType::LowerUnit, il::io, y); break;
          case 6: il::solveRight(F, il::MatrixType::UpperNonUnit, il::io, Y); break;
          default: il::solve(F, il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, Y);
        }
      })) return false;
  ev(names[what]);
  bf.same(names[what]);
  const Mat x = asMatrix<T>(rows, cols, by.read(names[what]));
  switch (what) {
    case 0: close(names[what], x, interchanged(rhs, pivot), 0); break;
    case 1: solves(names[what], l, x, rhs); break;
    case 2: case 4: solves(names[what], u, x, rhs); break;
    case 3: case 5: solves(names[what], l, x, interchanged(rhs, pivot)); break;
    case 6: solves(names[what], transposed(u), transposed(x), transposed(rhs)); break;
    default: solves(names[what], transposed(u), x, rhs);
  }
  return true;
}

template <typename T>
bool qr() {
  Stream s = stream();
  const int m = order(), n = order(), k = std::min(m, n);
  const Mat a = matrix<T>(m, n, s, (int)draw(3));
  Block<T> ba{a, 0, s};
  const Mat t0{k, 1};
  Block<T> bt{t0, 0, s};
  if (!lap("qrDecomposition", [&] {
        il::qrDecomposition(il::io, il::ArrayEdit<T>{bt.p, k}, il::Array2DEdit<T>{ba.p, m, n, ba.ld, 0, 0});
      })) return false;
  ev("qrDecomposition", Num<T>::name(), m, n);
  const Mat f = asMatrix<T>(m, n, ba.read("qrDecomposition"));
  const std::vector<CL> tau = bt.read("qrDecomposition");
  Mat r = upperOf(f);
  // Q = H(0) ... H(k-1) where H(i) = 1 - tau v v*
  for (int i = k - 1; i >= 0; --i)
    for (int j = 0; j < n; ++j) {
      CL t = r.at(i, j);
      for (int l = i + 1; l < m; ++l) t += std::conj(f.at(l, i)) * r.at(l, j);
      t *= tau[(size_t)i];
      r.at(i, j) -= t;
      for (int l = i + 1; l < m; ++l) r.at(l, j) -= f.at(l, i) * t;
    }
  close("qrDecomposition: Q.R", r, a, 400.0L * (m + n + 3) * kEps * std::max(normInf(a), norm1(a)));
  for (auto& t : tau) SIM_CHECK(std::abs(std::abs(CL(1) - t) - 1) < 1.0001L + 1, "wrong-factors", "qrDecomposition: tau is not that of a reflector");
  return true;
}

bool eigen() {
  Stream s = stream();
  const int n = order();
  // a matrix whose eigenvalues are known
  Mat d{n, n};
  std::vector<CL> want;
  for (int i = 0; i < n;) {
    const LD re = realOf(s, 1) * 4, im = realOf(s, 1) * 4;
    if (i + 1 < n && s.below(2)) {
      d.at(i, i) = d.at(i + 1, i + 1) = re;
      d.at(i, i + 1) = im;
      d.at(i + 1, i) = -im;
      want.push_back(CL(re, im));
      want.push_back(CL(re, -im));
      i += 2;
    } else {
      d.at(i, i) = re;
      want.push_back(re);
      ++i;
    }
  }
  const Mat q = unitary<double>(n, s);
  Mat a = product(product(q, d), adjoint(q));
  roundTo<double>(a);
  const std::vector<double> pa = plain<double>(a);
  const double* qa = pa.data();
  const int m0 = more(), m1 = more();
  Answer r;
  std::vector<CL> got;
  if (!lap("Eigen", [&] {
        il::Array2D<double> A{};
        fill(A, qa, n, n, m0, m1);
        il::Status status{};
        const il::Eigen<il::Array2D<double>> e{std::move(A), il::io, status};
        r.of(status);
        if (!r.ok) return;
        const il::Array<std::complex<double>> v = e.eigenValue();
        Host h;
        for (il::int_t i = 0; i < v.size(); ++i) got.push_back(CL(v[i].real(), v[i].imag()));
      }, &r)) return false;
  ev("eigen", n, m0, m1, (int)r.ok);
  SIM_CHECK(r.ok, "spurious-error", "Eigen reported error %d for a normal matrix of order %d", r.error, n);
  SIM_CHECK((int)got.size() == n, "wrong-size", "Eigen gave %zu eigenvalues instead of %d", got.size(), n);
  for (const CL& w : want) {
    size_t best = 0;
    for (size_t k = 1; k < got.size(); ++k)
      if (std::abs(got[k] - w) < std::abs(got[best] - w)) best = k;
    SIM_CHECK(std::abs(got[best] - w) <= 1e-11L * (n + 3), "wrong-eigenvalue", "(%.9Lg, %.9Lg) is an eigenvalue, and the nearest that was found is (%.9Lg, %.9Lg)", w.real(), w.imag(),
              got[best].real(), got[best].imag());
    got.erase(got.begin() + (long)best);
  }
  probe("eigenvalues");
  return true;
}

template <typename T, int n>
bool singulars() {
  Stream s = stream();
  std::vector<LD> want((size_t)n);
  Mat d{n, n};
  for (int i = 0; i < n; ++i) d.at(i, i) = want[(size_t)i] = s.below(4) == 0 ? 0 : 4 * unit(s);
  std::sort(want.begin(), want.end());
  const Mat u = unitary<T>(n, s), v = unitary<T>(n, s);
  Mat a = product(product(u, d), v);
  roundTo<T>(a);
  const std::vector<T> pa = plain<T>(a);
  const T* qa = pa.data();
  Answer r;
  std::vector<LD> got((size_t)n);
  if (!lap("singularValues", [&] {
        il::StaticArray2D<T, n, n> A{};
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) A(i, j) = qa[i * n + j];
        il::Status status{};
        const il::StaticArray<double, n> w = il::singularValues(A, il::io, status);
        r.of(status);
        for (int i = 0; i < n; ++i) got[(size_t)i] = w[i];
      }, &r)) return false;
  ev("singular values", Num<T>::name(), n, (int)r.ok);
  SIM_CHECK(r.ok, "spurious-error", "singularValues reported error %d", r.error);
  for (int i = 0; i + 1 < n; ++i) SIM_CHECK(got[(size_t)i] >= got[(size_t)i + 1], "wrong-order", "the singular values are not sorted");
  std::sort(got.begin(), got.end());
  for (int i = 0; i < n; ++i)
    SIM_CHECK(fabsl(got[(size_t)i] - want[(size_t)i]) <= 1e-12L * n, "wrong-singular-value", "a singular value is %.12Lg instead of %.12Lg (order %d)", got[(size_t)i], want[(size_t)i], n);
  probe("singular-values");
  return true;
}
}  // namespace

void world_lapack() {
  prepare();
  drawMemory(refusals());
  g_plan = Plan{};
  if (flip(6)) g_plan.refuse_at = 1 + (int)draw(3);
  else if (flip(20)) g_plan.stall_at = 1;
  const uint64_t nb = 1 + draw(3);
  nontrivial();
  for (uint64_t k = 0; k < nb; ++k) {
    bool fine = true;
    switch (draw(12)) {
      case 0: fine = systems<il::Array2D<double>>("linearSolve(Array2D)"); break;
      case 1: fine = systems<il::Array2C<double>>("linearSolve(Array2C)"); break;
      case 2: fine = bandSystems(); break;
      case 3: fine = triSystems(); break;
      case 4: case 5: fine = factors(); break;
      case 6:
        switch (draw(6)) {
          case 0: fine = fixedFactors<double, 1>(); break;
          case 1: fine = fixedFactors<double, 2>(); break;
          case 2: fine = fixedFactors<double, 5>(); break;
          case 3: fine = fixedFactors<std::complex<double>, 1>(); break;
          case 4: fine = fixedFactors<std::complex<double>, 3>(); break;
          default: fine = fixedFactors<std::complex<double>, 4>();
        }
        break;
      case 7: fine = inPlace<double>(); break;
      case 8: fine = inPlace<std::complex<double>>(); break;
      case 9: fine = draw(2) ? qr<double>() : qr<std::complex<double>>(); break;
      case 10: fine = eigen(); break;
      default:
        switch (draw(6)) {
          case 0: fine = singulars<double, 1>(); break;
          case 1: fine = singulars<double, 2>(); break;
          case 2: fine = singulars<double, 6>(); break;
          case 3: fine = singulars<std::complex<double>, 1>(); break;
          case 4: fine = singulars<std::complex<double>, 3>(); break;
          default: fine = singulars<std::complex<double>, 5>();
        }
    }
    if (!fine) return;
  }
  checkAllReleased();
}
