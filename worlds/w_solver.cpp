// Matrix-free iterative solvers on operators that may misbehave (C23).
#include <cmath>

#include <il/Gmres.h>
#include <il/Cg.h>
#include <mkl_service.h>

#include "seq.h"

using namespace seq;

// MKL's reverse communication routines print their messages unless told not to.
extern "C" {
void __real_dcg_init(const MKL_INT*, const double*, const double*, MKL_INT*, MKL_INT*, double*, double*);
void __wrap_dcg_init(const MKL_INT* n, const double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  __real_dcg_init(n, x, b, rci, ipar, dpar, tmp);
  ipar[5] = ipar[6] = 0;
}
void __real_dfgmres_init(const MKL_INT*, const double*, const double*, MKL_INT*, MKL_INT*, double*, double*);
void __wrap_dfgmres_init(const MKL_INT* n, const double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  __real_dfgmres_init(n, x, b, rci, ipar, dpar, tmp);
  ipar[5] = ipar[6] = 0;
}
}

namespace {

enum Kind { kEasy, kIdentity, kScaled, kHard, kSingular, kZero, kIndefinite, kUnsymmetric, kKinds };
const char* kind_names[] = {"easy", "identity", "scaled", "ill-conditioned", "singular", "zero", "indefinite", "unsymmetric"};

struct Dense {
  int n = 0;
  std::vector<double> a;
  double at(int i, int j) const { return a[(size_t)(i * n + j)]; }
  double& at(int i, int j) { return a[(size_t)(i * n + j)]; }
};

double unit(Stream& s) { return (double)(s.next() >> 11) / 9007199254740992.0; }

Dense makeMatrix(int kind, int n, Stream& s) {
  Dense d;
  d.n = n;
  d.a.assign((size_t)(n * n), 0.0);
  if (kind == kZero) return d;
  if (kind == kIdentity) {
    for (int i = 0; i < n; ++i) d.at(i, i) = 1.0;
    return d;
  }
  // a symmetric matrix whose eigenvalues are in [2, 8]
  for (int i = 0; i < n; ++i) d.at(i, i) = 4.0 + 2.0 * unit(s);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j) d.at(i, j) = d.at(j, i) = (2.0 * unit(s) - 1.0) * 2.0 / (n > 1 ? n - 1 : 1);
  if (kind == kScaled) {
    const double f = std::ldexp(1.0, (int)s.below(80) - 40);
    for (auto& x : d.a) x *= f;
  } else if (kind == kHard) {
    std::vector<double> f((size_t)n);
    for (auto& x : f) x = std::pow(10.0, -8.0 * unit(s));
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) d.at(i, j) *= f[(size_t)i] * f[(size_t)j];
  } else if (kind == kSingular) {
    const int k = (int)s.below((uint64_t)n);
    for (int i = 0; i < n; ++i) d.at(i, k) = d.at(k, i) = 0.0;
  } else if (kind == kIndefinite) {
    for (int i = 0; i < n; ++i)
      if (s.below(2)) d.at(i, i) = -d.at(i, i);
  } else if (kind == kUnsymmetric) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j) d.at(i, j) = -d.at(i, j);
  }
  return d;
}

enum Lie { kNan, kInf, kZeros, kNoise, kSign, kHuge, kStale, kNothing, kTiny, kLies };
const char* lie_names[] = {"operator-nan", "operator-inf", "operator-zeros", "operator-noise", "operator-sign",
                           "operator-huge", "operator-stale", "operator-stops-halfway", "operator-off-by-little"};

// An operator; its calls may be made to misbehave.
class Op : public il::FunctorArray<double> {
 public:
  Dense d;
  std::string name;
  mutable uint64_t calls = 0;
  mutable uint64_t lies = 0;
  uint64_t lie_from = 0, lie_to = 0;  // calls in [lie_from, lie_to) misbehave
  int lie = 0;
  uint64_t lie_seed = 0;
  mutable std::vector<double> last_x, last_y, previous_y;

  il::int_t size(il::int_t) const override { return d.n; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    Host h;
    SIM_CHECK(x.size() == d.n && y.size() == d.n, "operator-call", "%s was called with vectors of %ld and %ld elements instead of %d", name.c_str(), (long)x.size(), (long)y.size(), d.n);
    const uint64_t k = calls++;
    std::vector<double> in((size_t)d.n), out((size_t)d.n, 0.0);
    for (int i = 0; i < d.n; ++i) in[(size_t)i] = x[i];
    for (int i = 0; i < d.n; ++i) {
      double t = 0;
      for (int j = 0; j < d.n; ++j)
        if (d.at(i, j) != 0.0) t += d.at(i, j) * in[(size_t)j];
      out[(size_t)i] = t;
    }
    if (k >= lie_from && k < lie_to) {
      ++lies;
      fault(lie_names[lie]);
      Stream s{lie_seed + k};
      const size_t e = (size_t)s.below((uint64_t)d.n);
      switch (lie) {
        case kNan: out[e] = std::nan(""); break;
        case kInf: out[e] = s.below(2) ? HUGE_VAL : -HUGE_VAL; break;
        case kZeros: for (auto& v : out) v = 0.0; break;
        case kNoise: for (auto& v : out) v += (unit(s) - 0.5) * (1.0 + std::fabs(v)); break;
        case kSign: for (auto& v : out) v = -v; break;
        case kHuge: out[e] *= 1.0e250; break;
        case kStale: if (previous_y.size() == out.size()) out = previous_y; break;
        case kTiny: for (auto& v : out) v *= 1.0 + 1.0e-3 * (unit(s) - 0.5); break;
        default: for (size_t i = out.size() / 2; i < out.size(); ++i) out[i] = 0.0;
      }
    }
    for (int i = 0; i < d.n; ++i) y[i] = out[(size_t)i];
    for (int i = 0; i < d.n; ++i) SIM_CHECK(x[i] == in[(size_t)i] || (x[i] != x[i] && in[(size_t)i] != in[(size_t)i]),
                                            "operator-overlap", "the destination given to %s overlaps its argument", name.c_str());
    previous_y = out;
    last_x = in;
    last_y = out;
  }
};

double norm(const std::vector<long double>& v) {
  long double m = 0;
  for (auto x : v) {
    if (x != x) return std::nan("");
    if (std::fabs((double)x) > m) m = std::fabs((double)x);
  }
  if (m == 0 || std::isinf((double)m)) return (double)m;
  long double t = 0;
  for (auto x : v) t += (x / m) * (x / m);
  return (double)(m * sqrtl(t));
}
double norm(const std::vector<double>& v) { return norm(std::vector<long double>(v.begin(), v.end())); }

struct Residual { double r, rounding; };
Residual residual(const Dense& d, const std::vector<double>& x, const std::vector<double>& y) {
  std::vector<long double> r((size_t)d.n), m((size_t)d.n);
  for (int i = 0; i < d.n; ++i) {
    long double t = y[(size_t)i], a = std::fabs(y[(size_t)i]);
    for (int j = 0; j < d.n; ++j) {
      const long double p = (long double)d.at(i, j) * x[(size_t)j];
      if (d.at(i, j) != 0.0) { t -= p; a += fabsl(p); }
    }
    r[(size_t)i] = t;
    m[(size_t)i] = a;
  }
  return {norm(r), norm(m) * (d.n + 4) * 2.3e-16};
}

struct World {
  Op a, b;
  bool pre = false, lying = false, sane_pre = true;
  int kind = kEasy;
  int krylov = 1;
  bool cg = true;
  il::Cg<double>* c = nullptr;
  il::Gmres<double>* g = nullptr;
  void* p = nullptr;

  void plan(Op& op) {
    op.lie_from = op.calls + draw(draw(2) ? 6 : 40);
    const uint64_t len = draw(3);
    op.lie_to = len == 0 ? op.lie_from + 1 : len == 1 ? op.lie_from + 1 + draw(4) : ~0ull;
    op.lie = (int)draw(kLies);
    op.lie_seed = draw(1u << 20);
  }
  std::vector<double> rhs(Stream& s) {
    std::vector<double> y((size_t)a.d.n);
    const uint64_t f = draw(8);
    for (auto& v : y) v = 2.0 * unit(s) - 1.0;
    switch (f) {
      case 0: for (auto& v : y) v = 1.0; break;
      case 1: for (auto& v : y) v = 0.0; break;
      case 2: for (size_t i = 1; i < y.size(); ++i) y[i] = 0.0; break;
      case 3: for (auto& v : y) v *= std::ldexp(1.0, (int)s.below(120) - 60); break;
      case 4: if (flip(4)) y[s.below(y.size())] = draw(2) ? std::nan("") : HUGE_VAL; break;
      default: break;
    }
    return y;
  }
  bool solve() {
    const int n = a.d.n;
    Stream s = stream();
    static const double tols[] = {1e-6, 1e-10, 1e-8, 1e-4, 1e-2, 0.5, 1e-13, 0.0, 2.0};
    const double tol = tols[draw(9)];
    static const int maxs[] = {100, 1, 3, 10, 30, 200, 0, 400};
    const int max = maxs[draw(8)];
    const double abs_tol = cg && flip(6) ? 1e-3 : 0.0;
    const std::vector<double> y = rhs(s);
    double ynorm = norm(y);
    lying = false;
    a.lie_to = b.lie_to = a.lie_from = b.lie_from = 0;
    if (draw(2)) { plan(a); lying = true; }
    if (pre && flip(3)) { plan(b); lying = true; }
    // initial guess (Gmres)
    std::vector<double> x0((size_t)n, 0.0);
    const uint64_t guess = draw(4);
    if (guess == 1) for (auto& v : x0) v = 2.0 * unit(s) - 1.0;
    if (guess == 2) for (auto& v : x0) v = 1e3 * (unit(s) - 0.5);
    if (guess == 3 && !cg && flip(4)) x0[0] = std::nan("");
    const uint64_t calls0 = a.calls, lies0 = a.lies + b.lies;
    bool ok = false;
    int64_t its = -1;
    std::vector<double> x((size_t)n);
    bool y_changed = false, outside = false;
    setStepBudget(4000000);
    if (cg) {
      if (!sut("Solve", [&] {
            il::Array<double> iy{n};
            for (int i = 0; i < n; ++i) iy[i] = y[(size_t)i];
            c->SetRelativePrecision(tol);
            c->SetAbsolutionPrecision(abs_tol);
            c->SetMaxNbIterations(max);
            il::Status status{};
            const il::Array<double> ix = c->Solve(iy, il::io, status);
            ok = status.Ok();
            its = c->nbIterations();
            SIM_CHECK(ix.size() == n, "solution-size", "the solution has %ld elements instead of %d", (long)ix.size(), n);
            for (int i = 0; i < n; ++i) {
              x[(size_t)i] = ix[i];
              if (std::memcmp(&iy[i], &y[(size_t)i], 8) != 0) y_changed = true;
            }
          })) return false;
    } else {
      char* q = static_cast<char*>(rawAlloc((size_t)(n + 4) * 8));
      double* ix = reinterpret_cast<double*>(q) + 2;
      const double mark = 7.25e77;
      for (int i = -2; i < n + 2; ++i) ix[i] = mark;
      for (int i = 0; i < n; ++i) ix[i] = x0[(size_t)i];
      const bool fine = sut("Solve", [&] {
        il::Array<double> iy{n};
        for (int i = 0; i < n; ++i) iy[i] = y[(size_t)i];
        il::Status status{};
        g->Solve(iy.view(), tol, max, il::io, il::ArrayEdit<double>{ix, n}, status);
        ok = status.Ok();
        its = g->nbIterations();
        for (int i = 0; i < n; ++i)
          if (std::memcmp(&iy[i], &y[(size_t)i], 8) != 0) y_changed = true;
      });
      if (fine) {
        for (int i = 0; i < n; ++i) x[(size_t)i] = ix[i];
        outside = ix[-1] != mark || ix[-2] != mark || ix[n] != mark || ix[n + 1] != mark;
      }
      rawFree(q);
      if (!fine) return false;
    }
    const uint64_t used = a.calls - calls0;
    const bool lied = a.lies + b.lies != lies0;
    ev("solve", (int)cg, n, kind_names[kind], tol, max, (int)pre, (int)ok, its, (int)lied, (int64_t)used);
    SIM_CHECK(!y_changed, "right-hand-side-changed", "the right-hand side was changed");
    SIM_CHECK(!outside, "solution-outside", "the solver wrote outside the solution");
    SIM_CHECK(used <= 8 * (uint64_t)(max + 2), "iteration-limit", "the operator was called %lu times with at most %d iterations", (unsigned long)used, max);
    if (ok) {
      SIM_CHECK(its <= max, "iteration-limit", "%ld iterations were done, with at most %d allowed", (long)its, max);
      const double want = tol * ynorm + abs_tol;
      const Residual r = residual(a.d, x, y);
      const bool finite = std::isfinite(norm(x));
      bool good = finite && std::isfinite(r.r) && std::isfinite(ynorm) && r.r <= want * (1 + 1e-9) + r.rounding;
      if (!good && finite && std::isfinite(ynorm)) {
        // what the operator answered the last time it was asked about this vector
        if (a.last_x.size() == x.size() && std::memcmp(a.last_x.data(), x.data(), x.size() * 8) == 0) {
          std::vector<long double> t((size_t)n);
          for (int i = 0; i < n; ++i) t[(size_t)i] = (long double)y[(size_t)i] - a.last_y[(size_t)i];
          const double rr = norm(t);
          good = std::isfinite(rr) && rr <= want * (1 + 1e-9) + 1e-14 * ynorm;
          if (good) probe("deceived-by-the-operator");
        }
      }
      SIM_CHECK(good, "success-over-wrong-solution", "%s reported success, and the residual is %.3g instead of %.3g at most (%s matrix of order %d, %s)",
                cg ? "Cg" : "Gmres", r.r, want, kind_names[kind], n, lied ? "misbehaving operator" : "healthy operator");
      probe(lied ? "success-despite-lies" : cg ? "success-cg" : "success-gmres");
    } else {
      // A residual below the rounding of the first guess cannot be asked for.
      const bool must_succeed = !lied && sane_pre && (kind == kEasy || kind == kIdentity) && std::isfinite(ynorm) && tol >= 1e-10 && max >= (krylov == 1 && !cg ? 400 : 100) &&
                                (cg || guess != 3) && (cg || guess == 0 || tol * ynorm > 1e-13 * norm(a.d.a) * norm(x0));
      SIM_CHECK(!must_succeed, "spurious-failure", "%s could not solve an easy system of order %d to %.3g in %d iterations", cg ? "Cg" : "Gmres", n, tol, max);
      probe(lied ? "error-under-lies" : "error-reported");
    }
    return true;
  }
  // the step-by-step interface
  bool steps() {
    const int n = a.d.n;
    Stream s = stream();
    std::vector<double> y((size_t)n);
    for (auto& v : y) v = 2.0 * unit(s) - 1.0;
    const double ynorm = norm(y);
    a.lie_to = b.lie_to = a.lie_from = b.lie_from = 0;
    lying = flip(3);
    if (lying) plan(a);
    const uint64_t lies0 = a.lies;
    const int nb = 1 + (int)draw(20);
    char* q = static_cast<char*>(rawAlloc((size_t)n * 8 * 2));
    double* iy = reinterpret_cast<double*>(q);
    double* ix = iy + n;
    for (int i = 0; i < n; ++i) iy[i] = y[(size_t)i];
    setStepBudget(4000000);
    bool fine = sut("SetToSolve", [&] {
      const il::ArrayView<double> v{iy, n};
      if (cg) c->SetToSolve(v);
      else g->SetToSolve(v);
    });
    int64_t at = 0;
    for (int k = 0; fine && k < nb; ++k) {
      double res = 0;
      int64_t its = -1;
      const uint64_t calls0 = a.calls;
      fine = sut("Next", [&] {
        if (cg) { c->Next(); res = c->trueResidualNorm(); its = c->nbIterations(); }
        else { g->Next(); res = g->normResidual(); its = g->nbIterations(); }
        const il::ArrayEdit<double> v{ix, n};
        if (cg) c->getSolution(il::io, v);
        else g->getSolution(il::io, v);
      });
      if (!fine) break;
      ev("next", its);
      SIM_CHECK(a.calls - calls0 <= 12, "iteration-limit", "one iteration called the operator %lu times", (unsigned long)(a.calls - calls0));
      if (its != at + 1) break;  // found, or broken down
      at = its;
      if (a.lies != lies0 || kind > kScaled || !sane_pre) continue;
      std::vector<double> x(ix, ix + n);
      const Residual r = residual(a.d, x, y);
      SIM_CHECK(std::fabs(res - r.r) <= 1e-9 * ynorm, "wrong-residual", "%s gives %.6g as the norm of the residual, the vector it returns has %.6g (iteration %ld)",
                cg ? "Cg" : "Gmres", res, r.r, (long)its);
      probe(cg ? "step-cg" : "step-gmres");
      if (res <= 1e-9 * ynorm) break;
    }
    rawFree(q);
    return fine;
  }
  void run() {
    Stream s = stream();
    const int n = 1 + (int)draw(draw(2) ? 4 : 16);
    cg = draw(2) == 0;
    kind = draw(2) ? (int)draw(kKinds) : kEasy;
    a.d = makeMatrix(kind, n, s);
    a.name = "the operator";
    b.name = "the preconditioner";
    pre = draw(2) == 1;
    if (pre) {
      b.d.n = n;
      b.d.a.assign((size_t)(n * n), 0.0);
      const uint64_t f = draw(6);
      double scale = 1.0;
      if (f == 2) scale = std::ldexp(1.0, (int)draw(60) - 30);
      for (int i = 0; i < n; ++i) b.d.at(i, i) = f == 0 ? 1.0 : a.d.at(i, i) != 0.0 ? scale / a.d.at(i, i) : scale;
      if (f == 4) { b.d.at(0, 0) = -b.d.at(0, 0); sane_pre = false; }
      if (f == 5) { b.d.at(n - 1, n - 1) = 0.0; sane_pre = false; }
    }
    static const int ks[] = {4, 1, 2, 3, 10, 20, 40};
    krylov = ks[draw(7)];
    p = rawAlloc(cg ? sizeof(il::Cg<double>) : sizeof(il::Gmres<double>));
    bool fine = sut("constructor", [&] {
      if (cg) c = pre ? new (p) il::Cg<double>{a, b} : new (p) il::Cg<double>{a};
      else g = pre ? new (p) il::Gmres<double>{a, b, krylov} : new (p) il::Gmres<double>{a, krylov};
    });
    ev("system", (int)cg, kind_names[kind], n, (int)pre, krylov);
    const uint64_t nb = 1 + draw(4);
    for (uint64_t k = 0; fine && k < nb; ++k) fine = draw(3) == 2 ? steps() : solve();
    nontrivial();
    if (!fine) return;
    Sut g0;
    if (cg) c->~Cg();
    else g->~Gmres();
    Host h;
    rawFree(p);
    SIM_CHECK(g_astats.live == 0, "memory-leak", "memory was lost: %s", describeLive().c_str());
  }
};
}  // namespace

void world_solver() {
  static bool once = false;
  if (!once) {
    once = true;
    mkl_cbwr_set(MKL_CBWR_COMPATIBLE);  // results do not depend on addresses
  }
  World w;
  w.run();
}
