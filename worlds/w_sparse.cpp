// Sparse matrices, their products and their solvers (C29).
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>

#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/linearAlgebra/sparse/blas/SparseMatrixBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>

#include "dense.h"

using namespace seq;
using dense::LD;
using dense::unit;

// ---- faults inside of the linear algebra library -----------------------------
namespace {
struct Plan {
  int refuse_at = 0;  // the call that is refused its memory, counted from 1
  int calls = 0;
  bool refused = false;
  int break_at = 0;  // the iteration at which the iterative solver breaks down
  int steps = 0;
  bool broken = false;
} g_plan;
bool refuse() {
  if (++g_plan.calls != g_plan.refuse_at) return false;
  Host h;
  fault("sparse-library-out-of-memory");
  return g_plan.refused = true;
}
// the factorizations the library holds: address of the handle
std::set<const void*>& handles() { static std::set<const void*> s; return s; }
std::set<const void*>& matrices() { static std::set<const void*> s; return s; }
}  // namespace

extern "C" {
typedef const long long* LL;
void __real_pardiso_64(void* pt, LL maxfct, LL mnum, LL mtype, LL phase, LL n, const void* a, LL ia, LL ja, long long* perm, LL nrhs, long long* iparm, LL msglvl, void* b, void* x, long long* error);
void __wrap_pardiso_64(void* pt, LL maxfct, LL mnum, LL mtype, LL phase, LL n, const void* a, LL ia, LL ja, long long* perm, LL nrhs, long long* iparm, LL msglvl, void* b, void* x, long long* error) {
  if (*phase > 0 && refuse()) {
    *error = -2;
    return;
  }
  if (*phase >= 11 && *phase <= 13) {
    Host h;
    for (int i = 0; i < 64; ++i)
      SIM_CHECK(static_cast<void**>(pt)[i] == nullptr, "factorization-lost", "a factorization was started over another one that was not released");
    handles().insert(pt);
  }
  if (*phase < 0) {
    Host h;
    SIM_CHECK(handles().erase(pt) == 1, "double-release", "a factorization that the solver does not hold was released");
  }
  __real_pardiso_64(pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error);
}
void __real_dfgmres_init(const MKL_INT*, const double*, const double*, MKL_INT*, MKL_INT*, double*, double*);
void __wrap_dfgmres_init(const MKL_INT* n, const double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  __real_dfgmres_init(n, x, b, rci, ipar, dpar, tmp);
  ipar[5] = ipar[6] = 0;
}
void __real_dfgmres(const MKL_INT*, double*, double*, MKL_INT*, MKL_INT*, double*, double*);
void __wrap_dfgmres(const MKL_INT* n, double* x, double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  if (g_plan.broken || ++g_plan.steps == g_plan.break_at) {
    Host h;
    if (!g_plan.broken) fault("iterations-break-down");
    g_plan.broken = true;
    *rci = -10;
    return;
  }
  __real_dfgmres(n, x, b, rci, ipar, dpar, tmp);
}
// Its messages go to the screen, or to a file of the current folder.
void __real_dcsrilu0(const MKL_INT*, const double*, const MKL_INT*, const MKL_INT*, double*, const MKL_INT*, const double*, MKL_INT*);
void __wrap_dcsrilu0(const MKL_INT* n, const double* a, const MKL_INT* ia, const MKL_INT* ja, double* out, const MKL_INT* ipar, const double* dpar, MKL_INT* error) {
  Host h;
  SIM_CHECK(ipar[5] == 0 || ipar[1] == 6, "writes-a-file", "the preconditionner reports its errors in a file (ipar[1] = %ld)", (long)ipar[1]);
  MKL_INT quiet[128];
  std::memcpy(quiet, ipar, sizeof quiet);
  quiet[5] = quiet[6] = 0;
  if (refuse()) {
    *error = -104;
    return;
  }
  __real_dcsrilu0(n, a, ia, ja, out, quiet, dpar, error);
}
#define CREATE(name, T)                                                                                             \
  sparse_status_t __real_##name(sparse_matrix_t*, const sparse_index_base_t, const MKL_INT, const MKL_INT, MKL_INT*, MKL_INT*, MKL_INT*, T*); \
  sparse_status_t __wrap_##name(sparse_matrix_t* A, const sparse_index_base_t base, const MKL_INT m, const MKL_INT n, MKL_INT* b, MKL_INT* e, MKL_INT* c, T* v) { \
    if (refuse()) return SPARSE_STATUS_ALLOC_FAILED;                                                                \
    const sparse_status_t s = __real_##name(A, base, m, n, b, e, c, v);                                             \
    Host h;                                                                                                         \
    if (s == SPARSE_STATUS_SUCCESS) matrices().insert(*A);                                                          \
    return s;                                                                                                       \
  }
CREATE(mkl_sparse_d_create_csr, double)
CREATE(mkl_sparse_s_create_csr, float)
sparse_status_t __real_mkl_sparse_destroy(sparse_matrix_t);
sparse_status_t __wrap_mkl_sparse_destroy(sparse_matrix_t A) {
  {
    Host h;
    SIM_CHECK(matrices().erase(A) == 1, "double-release", "a matrix handle was destroyed twice");
  }
  return __real_mkl_sparse_destroy(A);
}
#define MULTIPLY(name, T)                                                                                           \
  sparse_status_t __real_##name(const sparse_operation_t, const T, const sparse_matrix_t, const struct matrix_descr, const T*, const T, T*); \
  sparse_status_t __wrap_##name(const sparse_operation_t o, const T alpha, const sparse_matrix_t A, const struct matrix_descr d, const T* x, const T beta, T* y) { \
    if (refuse()) return SPARSE_STATUS_ALLOC_FAILED;                                                                \
    return __real_##name(o, alpha, A, d, x, beta, y);                                                               \
  }
MULTIPLY(mkl_sparse_d_mv, double)
MULTIPLY(mkl_sparse_s_mv, float)
}

namespace {
const LD kEps = 2.3e-16L;

// Memory that the library could not have is never ignored.
template <typename F>
bool lib(const char* what, F&& f) {
  if (t_ctx.over) return false;
  const uint64_t failed = g_astats.failed;
  if (guarded(f) == End::Died) {
    if (g_astats.failed == failed && !g_plan.refused)
      violate("process-stop", "%s stopped the process (%s) although no memory was refused", what, g_death);
    t_ctx.over = true;
    probe("stopped-by-refused-memory");
    return false;
  }
  if (g_plan.refused) SIM_CHECK(false, "memory-ignored", "%s went on although the linear algebra library could not have its memory", what);
  if (g_astats.failed != failed) {
    t_ctx.over = true;
    return false;
  }
  return true;
}

// What a sparse matrix holds.
struct Csr {
  int n0 = 0, n1 = 0;
  std::vector<int> row, col;  // row is empty for an empty matrix
  std::vector<double> val;
  int nnz() const { return (int)col.size(); }
  void clear() { *this = Csr{}; }
};
double entry(Stream& s, int form) { return (double)dense::realOf(s, form); }

// A random pattern, the columns of a row in increasing order or not.
Csr pattern(int m, int n, Stream& s, bool sorted, int form) {
  Csr a;
  a.n0 = m;
  a.n1 = n;
  a.row.push_back(0);
  for (int i = 0; i < m; ++i) {
    std::vector<int> c;
    const int density = 1 + (int)s.below(4);
    for (int j = 0; j < n; ++j)
      if ((int)s.below(4) < density) c.push_back(j);
    if (s.below(5) == 0) c.clear();
    if (!sorted)
      for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[s.below(k)]);
    a.col.insert(a.col.end(), c.begin(), c.end());
    a.row.push_back((int)a.col.size());
  }
  for (int k = 0; k < a.nnz(); ++k) a.val.push_back(entry(s, form));
  return a;
}

template <typename I>
il::SparseMatrixCSR<I, double> make(const Csr* a) {
  il::Array<I> c{(il::int_t)a->nnz()};
  il::Array<I> r{(il::int_t)a->n0 + 1};
  il::Array<double> e{(il::int_t)a->nnz()};
  for (int k = 0; k < a->nnz(); ++k) {
    c[k] = (I)a->col[(size_t)k];
    e[k] = a->val[(size_t)k];
  }
  for (int i = 0; i <= a->n0; ++i) r[i] = (I)a->row[(size_t)i];
  return il::SparseMatrixCSR<I, double>{a->n0, a->n1, std::move(c), std::move(r), std::move(e)};
}
// Everything that can be read of the matrix; called under sut().
template <typename I, typename T>
Csr taken(const il::SparseMatrixCSR<I, T>& A, bool rows) {
  Host h;
  Csr r;
  r.n0 = (int)A.size(0);
  r.n1 = (int)A.size(1);
  const int nnz = (int)A.nbNonZeros();
  if (rows)
    for (int i = 0; i <= r.n0; ++i) r.row.push_back((int)A.row(i));
  for (int k = 0; k < nnz; ++k) {
    r.col.push_back((int)A.column(k));
    r.val.push_back((double)A.element(k));
  }
  return r;
}
bool same(double a, double b) { return a == b || (a != a && b != b); }
void compareCsr(const char* what, const Csr& got, const Csr& want) {
  SIM_CHECK(got.n0 == want.n0 && got.n1 == want.n1, "wrong-size", "%s: the matrix is %d x %d instead of %d x %d", what, got.n0, got.n1, want.n0, want.n1);
  SIM_CHECK(got.col.size() == want.col.size(), "wrong-size", "%s: %zu elements instead of %zu", what, got.col.size(), want.col.size());
  SIM_CHECK(got.row == want.row, "wrong-rows", "%s: the rows start at %s instead of %s", what, show(got.row).c_str(), show(want.row).c_str());
  SIM_CHECK(got.col == want.col, "wrong-columns", "%s: the columns are %s instead of %s", what, show(got.col).c_str(), show(want.col).c_str());
  for (size_t k = 0; k < want.val.size(); ++k)
    SIM_CHECK(same(got.val[k], want.val[k]), "wrong-element", "%s: element %zu is %.17g instead of %.17g", what, k, got.val[k], want.val[k]);
}

// ---- histories of matrices ----------------------------------------------------
template <typename I>
struct Histories {
  typedef il::SparseMatrixCSR<I, double> A;
  Holder<A> slot[3];
  Csr model[3];

  bool check(const char* what) {
    for (int k = 0; k < 3; ++k) {
      if (!slot[k].live()) continue;
      Csr got;
      Csr* const g = &got;
      A* const a = &*slot[k];
      const Csr* const m = &model[k];
      const bool rows = !m->row.empty();
      bool twice = true;
      if (!sut(what, [&] {
            *g = taken(*a, rows);
            const A& c = *a;
            for (int i = 0; i < m->n0 && rows; ++i)
              for (int l = 0; l < m->row[(size_t)i + 1] - m->row[(size_t)i]; ++l) {
                const il::int_t p = m->row[(size_t)i] + l;
                if (&c(i, l) != &c[p] || &(*a)(i, l) != &c[p] || c.elementData() + p != &c[p] || a->ElementData() != c.elementData()) twice = false;
              }
            for (int p = 0; p < m->nnz(); ++p)
              if ((int)c.columnData()[p] != (int)c.column(p)) twice = false;
            if (a->ColumnData() != c.columnData() || a->RowData() != c.rowData()) twice = false;
            for (int i = 0; i <= m->n0 && rows; ++i)
              if ((int)c.rowData()[i] != (int)c.row(i)) twice = false;
          })) return false;
      compareCsr(what, got, *m);
      SIM_CHECK(twice, "wrong-element", "%s: two ways of reaching the same element disagree", what);
      const void *p0 = nullptr, *p1 = nullptr, *p2 = nullptr;
      { Sut s; p0 = a->elementData(); p1 = a->columnData(); p2 = a->rowData(); }
      checkBlock(what, p0, m->nnz(), sizeof(double), a, sizeof(A));
      checkBlock(what, p1, m->nnz(), sizeof(I), a, sizeof(A));
      if (rows) checkBlock(what, p2, m->n0 + 1, sizeof(I), a, sizeof(A));
    }
    return true;
  }
  bool positions(int k) {
    Stream s = stream();
    const int n = (int)draw(draw(2) ? 4 : thorough() ? 20 : 10);
    const int nb = n == 0 ? 0 : (int)draw(draw(2) ? 6 : (uint64_t)(3 * n + 1));
    std::vector<int> pos;
    std::vector<double> w;
    const int narrow = draw(3) == 2 && n > 1 ? 2 : n;  // many duplicates
    for (int l = 0; l < nb; ++l) {
      pos.push_back((int)s.below((uint64_t)(draw(4) ? n : narrow)));
      pos.push_back((int)s.below((uint64_t)narrow));
      w.push_back((double)((int)s.below(9) - 4));
    }
    std::map<std::pair<int, int>, double> cells;
    for (int l = 0; l < nb; ++l) cells[{pos[(size_t)(2 * l)], pos[(size_t)(2 * l + 1)]}] += w[(size_t)l];
    Csr& m = model[k];
    m.clear();
    m.n0 = m.n1 = n;
    m.row.push_back(0);
    auto it = cells.begin();
    for (int i = 0; i < n; ++i) {
      for (; it != cells.end() && it->first.first == i; ++it) {
        m.col.push_back(it->first.second);
        m.val.push_back(it->second);
      }
      m.row.push_back((int)m.col.size());
    }
    const int* const p = pos.data();
    const double* const q = w.data();
    const int before = (int)draw(4);
    if (!slot[k].destroy("destructor")) return false;
    slot[k].raw();
    std::vector<int> idx((size_t)nb);
    int* const pi = idx.data();
    bool zero = true;
    il::int_t ni = -1;
    if (!sut("SparseMatrixCSR(positions)", [&] {
          il::Array<il::StaticArray<I, 2>> position{nb};
          for (int l = 0; l < nb; ++l) {
            position[l][0] = (I)p[2 * l];
            position[l][1] = (I)p[2 * l + 1];
          }
          il::Array<I> index{before, (I)77};
          new (slot[k].p) A{n, position, il::io, index};
          A& a = *slot[k];
          ni = index.size();
          for (il::int_t e = 0; e < a.nbNonZeros(); ++e)
            if (!(a[e] == 0.0)) zero = false;
          for (int l = 0; l < nb && l < ni; ++l) pi[l] = (int)index[l];
        })) return false;
    ev("positions", n, nb, (int)m.col.size());
    SIM_CHECK(ni == nb, "wrong-index", "there are %ld indices for %d positions", (long)ni, nb);
    SIM_CHECK(zero, "wrong-element", "an element of a new matrix is not 0");
    for (int l = 0; l < nb; ++l) {
      const int e = idx[(size_t)l];
      SIM_CHECK(e >= 0 && e < m.nnz() && m.col[(size_t)e] == pos[(size_t)(2 * l + 1)] && e >= m.row[(size_t)pos[(size_t)(2 * l)]] && e < m.row[(size_t)pos[(size_t)(2 * l)] + 1],
                "wrong-index", "position %d (%d, %d) was given index %d", l, pos[(size_t)(2 * l)], pos[(size_t)(2 * l + 1)], e);
    }
    if ((size_t)nb != cells.size()) probe("duplicate-positions");
    if (n == 0) probe("empty-positions");
    return sut("operator[]", [&] {
      A& a = *slot[k];
      for (int l = 0; l < nb; ++l) a[pi[l]] += q[l];
    });
  }
  bool arrays(int k) {
    Stream s = stream();
    const int m0 = (int)draw(8), n0 = (int)draw(8);
    model[k] = pattern(m0, n0, s, draw(2) == 0, 1);
    const Csr* const m = &model[k];
    const bool with = draw(3) != 0;
    if (!slot[k].destroy("destructor")) return false;
    slot[k].raw();
    ev("arrays", m0, n0, m->nnz(), (int)with);
    return sut("SparseMatrixCSR(arrays)", [&] {
      if (with) {
        new (slot[k].p) A{make<I>(m)};
        return;
      }
      il::Array<I> c{(il::int_t)m->nnz()};
      il::Array<I> r{(il::int_t)m->n0 + 1};
      for (int e = 0; e < m->nnz(); ++e) c[e] = (I)m->col[(size_t)e];
      for (int i = 0; i <= m->n0; ++i) r[i] = (I)m->row[(size_t)i];
      new (slot[k].p) A{m->n0, m->n1, std::move(c), std::move(r)};
      for (int e = 0; e < m->nnz(); ++e) (*slot[k])[e] = m->val[(size_t)e];
    });
  }
  template <typename J>
  bool small(int k, J) { return arrays(k); }
  bool small(int k, il::int_t) {
    Stream s = stream();
    const int m0 = (int)draw(8), n0 = (int)draw(8);
    model[k] = pattern(m0, n0, s, draw(2) == 0, 1);
    const Csr* const m = &model[k];
    if (!slot[k].destroy("destructor")) return false;
    slot[k].raw();
    ev("small arrays", m0, n0, m->nnz());
    return sut("SparseMatrixCSR(small arrays)", [&] {
      il::Array<il::SmallArray<il::int_t, 3>> c{(il::int_t)m->n0};
      for (int i = 0; i < m->n0; ++i)
        for (int e = m->row[(size_t)i]; e < m->row[(size_t)i + 1]; ++e) c[i].Append((il::int_t)m->col[(size_t)e]);
      new (slot[k].p) A{m->n1, m->n0, c};
      for (int e = 0; e < m->nnz(); ++e) (*slot[k])[e] = m->val[(size_t)e];
    });
  }
  bool fresh(int k) {
    model[k].clear();
    if (!slot[k].destroy("destructor")) return false;
    slot[k].raw();
    ev("default");
    return sut("SparseMatrixCSR()", [&] { new (slot[k].p) A{}; });
  }
  bool transfer(int k, int l) {
    const bool moved = draw(2) == 1;
    ev(moved ? "move" : "copy", k, l, (int)slot[k].live());
    if (!slot[k].live()) {
      slot[k].raw();
      if (!sut(moved ? "move constructor" : "copy constructor", [&] {
            if (moved) new (slot[k].p) A{std::move(*slot[l])};
            else new (slot[k].p) A{*slot[l]};
          })) return false;
    } else if (!sut(moved ? "move assignment" : "copy assignment", [&] {
            if (moved) *slot[k] = std::move(*slot[l]);
            else *slot[k] = *slot[l];
          })) return false;
    if (k == l) {
      probe("self-assignment");
      return true;
    }
    model[k] = model[l];
    probe(moved ? "moved" : "copied");
    if (!moved) return true;
    // what it holds is its own business, as long as it is a matrix
    Csr* const m = &model[l];
    A* const a = &*slot[l];
    return sut("moved-from matrix", [&] { *m = taken(*a, a->size(0) > 0); });
  }
  bool change(int k) {
    Csr& m = model[k];
    if (m.nnz() == 0) return true;
    const int e = (int)draw((uint64_t)m.nnz());
    Stream s = stream();
    const double v = entry(s, 1);
    int i = 0;
    while (m.row[(size_t)i + 1] <= e) ++i;
    const int l = e - m.row[(size_t)i];
    const uint64_t how = draw(3);
    m.val[(size_t)e] = v;
    return sut("element", [&] {
      if (how == 0) (*slot[k])[e] = v;
      else if (how == 1) (*slot[k])(i, l) = v;
      else slot[k]->ElementData()[e] = v;
    });
  }
  bool norms(int k) {
    const Csr& m = model[k];
    Stream s = stream();
    std::vector<double> al((size_t)m.n1), be((size_t)m.n0);
    for (auto& x : al) x = entry(s, 1);
    for (auto& x : be) x = entry(s, 1) + (s.below(2) ? 2.0 : -2.0);
    const double *pa = al.data(), *pb = be.data();
    double got = -1;
    if (!sut("norm", [&] {
          il::Array<double> a{(il::int_t)m.n1}, b{(il::int_t)m.n0};
          for (int j = 0; j < m.n1; ++j) a[j] = pa[j];
          for (int i = 0; i < m.n0; ++i) b[i] = pb[i];
          got = il::norm(*slot[k], il::Norm::Linf, b, a);
        })) return false;
    LD want = 0;
    for (int i = 0; i < m.n0; ++i) {
      LD t = 0;
      for (int e = m.row[(size_t)i]; e < m.row[(size_t)i + 1]; ++e) t += fabsl((LD)m.val[(size_t)e] * al[(size_t)m.col[(size_t)e]] / be[(size_t)i]);
      want = std::max(want, t);
    }
    SIM_CHECK(fabsl(got - want) <= 40 * kEps * want, "wrong-norm", "the norm of a %d x %d matrix is %.17g instead of %.17Lg", m.n0, m.n1, got, want);
    probe("norm");
    return true;
  }
  bool product(int k);
  bool run() {
    const int nb = 1 + (int)draw(draw(2) ? 6 : thorough() ? 30 : 15);
    for (int o = 0; o < nb; ++o) {
      int k = (int)draw(3);
      const uint64_t op = draw(12);
      const bool needs = op >= 5;
      if (needs && !slot[k].live()) {
        for (int l = 0; l < 3; ++l)
          if (slot[l].live()) k = l;
        if (!slot[k].live()) continue;
      }
      bool fine = true;
      switch (op) {
        case 0: case 1: fine = positions(k); break;
        case 2: fine = arrays(k); break;
        case 3: fine = small(k, I{}); break;
        case 4: fine = draw(3) ? arrays(k) : fresh(k); break;
        case 5: case 6: case 7: fine = transfer((int)draw(3), k); break;
        case 8: fine = change(k); break;
        case 9: fine = norms(k); break;
        case 10: fine = product(k); break;
        default: fine = slot[k].destroy("destructor");
      }
      if (!fine || !check("content")) return false;
    }
    for (auto& s : slot)
      if (!s.destroy("destructor")) return false;
    return true;
  }
};

// y = alpha A.x + beta y in extended precision, and what rounding explains.
struct Wanted { std::vector<LD> y, slack; };
Wanted multiply(const Csr& a, double alpha, const std::vector<double>& x, double beta, const std::vector<double>& y, LD eps) {
  Wanted w;
  for (int i = 0; i < a.n0; ++i) {
    LD t = 0, b = 0;
    for (int e = a.row[(size_t)i]; e < a.row[(size_t)i + 1]; ++e) {
      const LD p = (LD)a.val[(size_t)e] * x[(size_t)a.col[(size_t)e]];
      t += p;
      b += fabsl(p);
    }
    t *= alpha;
    b *= fabsl((LD)alpha);
    if (beta != 0) {
      t += (LD)beta * y[(size_t)i];
      b += fabsl((LD)beta * y[(size_t)i]);
    }
    w.y.push_back(t);
    w.slack.push_back((LD)(a.n1 + 4) * eps * b);
  }
  return w;
}
double scalar(Stream& s) {
  switch (draw(5)) {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return -1.0;
    default: return entry(s, 0);
  }
}
struct Operands {
  std::vector<double> x, y;
  double alpha, beta;
  Operands(const Csr& a, Stream& s, int form) {
    for (int j = 0; j < a.n1; ++j) x.push_back(entry(s, form));
    for (int i = 0; i < a.n0; ++i) y.push_back(entry(s, form));
    alpha = scalar(s);
    beta = scalar(s);
    // a result that is not to be read
    if (beta == 0 && draw(2))
      for (auto& v : y) v = std::numeric_limits<double>::quiet_NaN();
  }
};
void judge(const char* what, const Wanted& w, const std::vector<double>& got) {
  for (size_t i = 0; i < got.size(); ++i)
    SIM_CHECK(fabsl(got[i] - w.y[i]) <= w.slack[i], "wrong-product", "%s: element %zu is %.17g instead of %.17Lg", what, i, got[i], w.y[i]);
}

template <typename I>
bool Histories<I>::product(int k) {
  Stream s = stream();
  const Csr& m = model[k];
  const Operands o{m, s, 1};
  const double *px = o.x.data(), *py = o.y.data();
  std::vector<double> got((size_t)m.n0);
  double* pg = got.data();
  bool changed = false;
  if (!sut("blas", [&] {
        il::Array<double> x{(il::int_t)m.n1}, y{(il::int_t)m.n0};
        for (int j = 0; j < m.n1; ++j) x[j] = px[j];
        for (int i = 0; i < m.n0; ++i) y[i] = py[i];
        il::blas(o.alpha, *slot[k], x, o.beta, il::io, y);
        for (int i = 0; i < m.n0; ++i) pg[i] = y[i];
        for (int j = 0; j < m.n1; ++j)
          if (x[j] != px[j]) changed = true;
      })) return false;
  SIM_CHECK(!changed, "argument-changed", "blas changed a vector it only reads");
  judge("blas", multiply(m, o.alpha, o.x, o.beta, o.y, kEps), got);
  probe("csr-product");
  return true;
}

// What holds a handle of the library can be copied only if the copy holds its own.
template <typename B>
void copyOf(B& b, std::true_type) {
  B c{b};
  { B d{c}; (void)d; }
}
template <typename B>
void copyOf(B&, std::false_type) {}

// ---- optimized products ---------------------------------------------------------
template <typename T>
bool optimized(const char* what) {
  Stream s = stream();
  Csr a = pattern(1 + (int)draw(8), 1 + (int)draw(8), s, draw(2) == 0, 0);
  const Csr* const pa = &a;
  const int nb = 1 + (int)draw(3);
  const bool hint = draw(3) == 0, copied = draw(3) == 0;
  std::vector<Operands> os;
  for (int k = 0; k < nb; ++k) os.emplace_back(a, s, 0);
  const Operands* const po = os.data();
  std::vector<std::vector<double>> got((size_t)nb, std::vector<double>((size_t)a.n0));
  std::vector<double>* const pg = got.data();
  ev("optimized", a.n0, a.n1, a.nnz(), nb);
  Csr after;
  if (!lib(what, [&] {
        il::Array<int> c{(il::int_t)pa->nnz()};
        il::Array<int> r{(il::int_t)pa->n0 + 1};
        for (int k = 0; k < pa->nnz(); ++k) c[k] = pa->col[(size_t)k];
        for (int i = 0; i <= pa->n0; ++i) r[i] = pa->row[(size_t)i];
        il::Array<T> e{(il::int_t)pa->nnz()};
        for (int k = 0; k < pa->nnz(); ++k) e[k] = (T)pa->val[(size_t)k];
        il::SparseMatrixCSR<int, T> A{pa->n0, pa->n1, std::move(c), std::move(r), std::move(e)};
        {
          il::SparseMatrixBlas<int, T> B{il::io, A};
          if (hint) B.setNbMatrixVector(nb);
          if (copied) copyOf(B, std::is_copy_constructible<il::SparseMatrixBlas<int, T>>{});
          for (int k = 0; k < nb; ++k) {
            il::Array<T> x{(il::int_t)pa->n1}, y{(il::int_t)pa->n0};
            for (int j = 0; j < pa->n1; ++j) x[j] = (T)po[k].x[(size_t)j];
            for (int i = 0; i < pa->n0; ++i) y[i] = (T)po[k].y[(size_t)i];
            il::blas((T)po[k].alpha, B, x, (T)po[k].beta, il::io, y);
            for (int i = 0; i < pa->n0; ++i) pg[k][(size_t)i] = y[i];
          }
        }
        after = taken(A, true);
      })) return false;
  for (int k = 0; k < nb; ++k) judge(what, multiply(a, os[(size_t)k].alpha, os[(size_t)k].x, os[(size_t)k].beta, os[(size_t)k].y, 0), got[(size_t)k]);
  compareCsr(what, after, a);
  probe("optimized-product");
  return true;
}

// ---- the product of two matrices --------------------------------------------------
bool dots() {
  Stream s = stream();
  const int m = (int)draw(7), n = (int)draw(7);
  const bool itself = draw(4) == 0;
  const Csr a = pattern(m, itself ? m : n, s, draw(2) == 0, 0);
  const Csr b = itself ? a : pattern(n, (int)draw(7), s, draw(2) == 0, 0);
  const Csr *pa = &a, *pb = &b;
  Csr got, aa, ba;
  ev("dot", a.n0, a.n1, b.n1, a.nnz(), b.nnz());
  if (!lib("dot", [&] {
        il::SparseMatrixCSR<int, double> A = make<int>(pa);
        il::SparseMatrixCSR<int, double> B = make<int>(pb);
        const il::SparseMatrixCSR<int, double> C = itself ? il::dot(il::io, A, A) : il::dot(il::io, A, B);
        got = taken(C, true);
        aa = taken(A, true);
        ba = taken(B, true);
      })) return false;
  compareCsr("dot, its first argument", aa, a);
  compareCsr("dot, its second argument", ba, b);
  SIM_CHECK(got.n0 == a.n0 && got.n1 == b.n1, "wrong-size", "dot: the result is %d x %d instead of %d x %d", got.n0, got.n1, a.n0, b.n1);
  SIM_CHECK(got.row[0] == 0 && got.row[(size_t)got.n0] == got.nnz(), "wrong-rows", "dot: the rows of the result are from %d to %d, and it has %d elements", got.row[0], got.row[(size_t)got.n0], got.nnz());
  std::vector<double> want((size_t)(a.n0 * b.n1)), have(want.size());
  for (int i = 0; i < a.n0; ++i) {
    for (int e = a.row[(size_t)i]; e < a.row[(size_t)i + 1]; ++e) {
      const int l = a.col[(size_t)e];
      for (int f = b.row[(size_t)l]; f < b.row[(size_t)l + 1]; ++f) want[(size_t)(i * b.n1 + b.col[(size_t)f])] += a.val[(size_t)e] * b.val[(size_t)f];
    }
    SIM_CHECK(got.row[(size_t)i] <= got.row[(size_t)i + 1], "wrong-rows", "dot: row %d of the result starts after row %d", i, i + 1);
    std::set<int> seen;
    for (int e = got.row[(size_t)i]; e < got.row[(size_t)i + 1]; ++e) {
      const int j = got.col[(size_t)e];
      SIM_CHECK(j >= 0 && j < got.n1 && seen.insert(j).second, "wrong-columns", "dot: column %d in row %d of the result", j, i);
      have[(size_t)(i * b.n1 + j)] = got.val[(size_t)e];
    }
  }
  for (size_t k = 0; k < want.size(); ++k)
    SIM_CHECK(have[k] == want[k], "wrong-product", "dot: element %zu is %.17g instead of %.17g", k, have[k], want[k]);
  probe("sparse-dot");
  return true;
}

// ---- solvers -------------------------------------------------------------------
// A square matrix that is diagonally dominant, its rows possibly permuted, the
// columns of each row in increasing order.
Csr dominant(int n, Stream& s, bool permuted) {
  Csr a;
  a.n0 = a.n1 = n;
  a.row.push_back(0);
  std::vector<int> p((size_t)n);
  for (int i = 0; i < n; ++i) p[(size_t)i] = i;
  if (permuted)
    for (int i = n - 1; i > 0; --i) std::swap(p[(size_t)i], p[s.below((uint64_t)i + 1)]);
  const int density = (int)s.below(5);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      if (j == p[(size_t)i] || (int)s.below((uint64_t)(n + 4)) < density) a.col.push_back(j);
    a.row.push_back((int)a.col.size());
  }
  a.val.resize(a.col.size());
  for (int i = 0; i < n; ++i) {
    for (int e = a.row[(size_t)i]; e < a.row[(size_t)i + 1]; ++e) {
      const int len = a.row[(size_t)i + 1] - a.row[(size_t)i];
      const double u = (double)(2 * unit(s) - 1);
      a.val[(size_t)e] = a.col[(size_t)e] == p[(size_t)i] ? (s.below(2) ? 2.0 : -2.0) + 0.5 * u : u / len;
    }
  }
  return a;
}
LD normOf(const std::vector<LD>& v) {
  LD t = 0;
  for (auto x : v) t += x * x;
  return sqrtl(t);
}
struct Res { LD r, y, scale; };
Res residualOf(const Csr& a, const std::vector<double>& x, const std::vector<double>& y) {
  std::vector<LD> r, m, yy(y.begin(), y.end());
  for (int i = 0; i < a.n0; ++i) {
    LD t = y[(size_t)i], b = fabsl(t);
    for (int e = a.row[(size_t)i]; e < a.row[(size_t)i + 1]; ++e) {
      const LD q = (LD)a.val[(size_t)e] * x[(size_t)a.col[(size_t)e]];
      t -= q;
      b += fabsl(q);
    }
    r.push_back(t);
    m.push_back(b);
  }
  return {normOf(r), normOf(yy), normOf(m)};
}
int order() { return 1 + (int)draw(draw(3) ? 4 : draw(3) ? 12 : thorough() ? 60 : 30); }

bool direct() {
  typedef il::Pardiso P;
  const int nb_matrices = 1 + (int)draw(2);
  Csr model[2];
  Holder<il::SparseMatrixCSR<il::int_t, double>> A[2];
  Stream s = stream();
  for (int k = 0; k < nb_matrices; ++k) {
    model[k] = dominant(order(), s, draw(2) == 1);
    A[k].raw();
    const Csr* const m = &model[k];
    if (!lib("SparseMatrixCSR", [&] { new (A[k].p) il::SparseMatrixCSR<il::int_t, double>{make<il::int_t>(m)}; })) return false;
  }
  Holder<P> solver;
  solver.raw();
  if (!lib("Pardiso()", [&] { new (solver.p) P{}; })) return false;
  int at = -1;            // the matrix of the symbolic factorization
  bool factored = false;  // there is a numerical factorization
  bool stale = false;     // the values have changed since
  const int nb = 2 + (int)draw(draw(2) ? 4 : 10);
  for (int o = 0; o < nb; ++o) {
    const uint64_t op = o == 0 ? 0 : o == 1 ? 1 : draw(8);
    if (op == 0) {
      at = (int)draw((uint64_t)nb_matrices);
      ev("symbolic", at);
      if (!lib("SymbolicFactorization", [&] { solver->SymbolicFactorization(*A[at]); })) return false;
      factored = false;
      probe("symbolic");
    } else if (op == 1 || (op == 2 && stale)) {
      ev("numerical", at);
      if (!lib("NumericalFactorization", [&] { solver->NumericalFactorization(*A[at]); })) return false;
      factored = true;
      stale = false;
      probe("numerical");
    } else if (op == 3) {
      // values that are close to the ones of the factorization
      Csr& m = model[at];
      for (auto& v : m.val) v *= 1.0 + 1.0e-3 * (double)unit(s);
      const double* const q = m.val.data();
      ev("change", at);
      if (!lib("operator[]", [&] {
            for (int e = 0; e < m.nnz(); ++e) (*A[at])[e] = q[e];
          })) return false;
      stale = true;
    } else if (op == 4 && nb_matrices == 2 && draw(2)) {
      // the other matrix lives its own life
      const int b = 1 - at;
      Csr& m = model[b];
      if (m.nnz() == 0) continue;
      const int e = (int)draw((uint64_t)m.nnz());
      m.val[(size_t)e] *= 1.0625;
      const double v = m.val[(size_t)e];
      if (!lib("operator[]", [&] { (*A[b])[e] = v; })) return false;
    } else if (factored) {
      const bool iterative = stale || draw(3) == 2;
      const Csr& m = model[at];
      std::vector<double> y((size_t)m.n0), x((size_t)m.n0);
      for (auto& v : y) v = (double)(2 * unit(s) - 1);
      if (draw(8) == 7) y.assign(y.size(), 0.0);
      const double* const py = y.data();
      double* const px = x.data();
      bool changed = false;
      il::int_t size = -1;
      const char* what = iterative ? "SolveIterative" : "Solve";
      if (!lib(what, [&] {
            il::Array<double> iy{m.n0};
            for (int i = 0; i < m.n0; ++i) iy[i] = py[i];
            const il::Array<double> ix = iterative ? solver->SolveIterative(*A[at], iy) : solver->Solve(*A[at], iy);
            size = ix.size();
            for (int i = 0; i < m.n0 && i < size; ++i) px[i] = ix[i];
            for (int i = 0; i < m.n0; ++i)
              if (iy[i] != py[i]) changed = true;
          })) return false;
      ev(what, at, (int)stale);
      SIM_CHECK(size == m.n0, "wrong-size", "%s: the solution has %ld elements instead of %d", what, (long)size, m.n0);
      SIM_CHECK(!changed, "argument-changed", "%s changed the right-hand side", what);
      const Res r = residualOf(m, x, y);
      const LD limit = stale ? 2e-2L * r.y : 1000 * kEps * (m.n0 + 3) * r.scale;
      SIM_CHECK(r.r <= limit, "wrong-solution", "%s: the residual is %.3Lg instead of %.3Lg at most (order %d)", what, r.r, limit, m.n0);
      probe(stale ? "solved-with-an-older-factorization" : "solved-directly");
    }
    for (int k = 0; k < nb_matrices; ++k) {
      Csr got;
      Csr* const g = &got;
      { Sut q; *g = taken(*A[k], true); }
      compareCsr("the matrix of a solver", got, model[k]);
    }
  }
  if (factored && draw(3) == 0 && !lib("Pardiso, its copy", [&] { copyOf(*solver, std::is_copy_constructible<P>{}); })) return false;
  if (!lib("~Pardiso", [&] { solver->~P(); })) return false;
  rawFree(solver.p);
  SIM_CHECK(handles().empty(), "factorization-lost", "a solver was destroyed without releasing its factorization");
  for (int k = 0; k < nb_matrices; ++k)
    if (!A[k].destroy("destructor")) return false;
  return true;
}

bool iterations() {
  typedef il::GmresIlu0 G;
  Stream s = stream();
  Csr model = dominant(order(), s, false);
  const Csr* const m = &model;
  const int n = model.n0;
  // no preconditionner can be computed without the first element of the diagonal
  const bool pivot = !flip(10);
  if (!pivot) model.val[0] = 0.0;
  Holder<il::SparseMatrixCSR<int, double>> A;
  A.raw();
  if (!lib("SparseMatrixCSR", [&] { new (A.p) il::SparseMatrixCSR<int, double>{make<int>(m)}; })) return false;
  Holder<G> solver;
  solver.raw();
  static const double tols[] = {1e-6, 1e-10, 1e-3, 1e-8, 0.5, 1e-15};
  static const int maxs[] = {200, 1, 2, 5, 20, 100};
  static const int restarts[] = {20, 1, 2, 5, 10};
  double tol = tols[draw(6)];
  int max = maxs[draw(6)], restart = restarts[draw(5)];
  const bool plain = draw(4) == 0;
  if (plain) { tol = 1e-3; max = 100; restart = 20; }
  if (!lib("GmresIlu0()", [&] { if (plain) new (solver.p) G{}; else new (solver.p) G{tol, max, restart}; })) return false;
  if (pivot) {
    if (!lib("computePreconditionner", [&] { solver->computePreconditionner(il::io, *A); })) return false;
  } else {
    const End end = guarded([&] { solver->computePreconditionner(il::io, *A); });
    SIM_CHECK(end == End::Died || g_astats.failed, "singular-not-reported", "a preconditionner was computed with a null pivot");
    probe("null-pivot");
    t_ctx.over = true;
    return false;
  }
  const int nb = 1 + (int)draw(4);
  setStepBudget(4000000);
  for (int o = 0; o < nb; ++o) {
    if (o > 0) {
      const uint64_t op = draw(6);
      if (op == 0) { tol = tols[draw(6)]; if (!lib("setRelativePrecision", [&] { solver->setRelativePrecision(tol); })) return false; }
      if (op == 1) { max = maxs[draw(6)]; if (!lib("setMaxNbIteration", [&] { solver->setMaxNbIteration(max); })) return false; }
      if (op == 2) { restart = restarts[draw(5)]; if (!lib("setRestartIteration", [&] { solver->setRestartIteration(restart); })) return false; }
      if (op == 3) {
        for (auto& v : model.val) v *= 1.0 + 0.125 * (double)unit(s);
        const double* const q = model.val.data();
        const bool again = draw(2) == 1;
        if (!lib("operator[]", [&] {
              for (int e = 0; e < m->nnz(); ++e) (*A)[e] = q[e];
              if (again) solver->computePreconditionner(il::io, *A);
            })) return false;
      }
    }
    std::vector<double> y((size_t)n), x((size_t)n);
    for (auto& v : y) v = (double)(2 * unit(s) - 1);
    const uint64_t form = draw(8);
    if (form == 7) y.assign(y.size(), 0.0);
    if (form == 6) for (size_t i = 1; i < y.size(); ++i) y[i] = 0.0;
    const bool sane = !(form == 5 && flip(3));
    if (!sane) y[s.below(y.size())] = s.below(2) ? std::nan("") : HUGE_VAL;
    const double* const py = y.data();
    double* const px = x.data();
    bool changed = false;
    il::int_t size = -1, its = -1;
    if (!lib("GmresIlu0::solve", [&] {
          il::Array<double> iy{n};
          for (int i = 0; i < n; ++i) iy[i] = py[i];
          const il::Array<double> ix = solver->solve(iy, il::io, *A);
          its = solver->nbIterations();
          size = ix.size();
          for (int i = 0; i < n && i < size; ++i) px[i] = ix[i];
          for (int i = 0; i < n; ++i)
            if (!same(iy[i], py[i])) changed = true;
        })) return false;
    ev("gmres", n, tol, max, restart, (int64_t)its);
    SIM_CHECK(size == n, "wrong-size", "GmresIlu0: the solution has %ld elements instead of %d", (long)size, n);
    SIM_CHECK(!changed, "argument-changed", "GmresIlu0 changed the right-hand side");
    SIM_CHECK(its >= 0 && its <= max, "iteration-limit", "GmresIlu0 did %ld iterations, with at most %d allowed", (long)its, max);
    Csr got;
    Csr* const g = &got;
    { Sut q; *g = taken(*A, true); }
    compareCsr("the matrix of GmresIlu0", got, model);
    if (!sane || g_plan.broken) {
      probe(sane ? "broken-down" : "second-member-not-finite");
      g_plan.broken = false;
      continue;
    }
    const Res r = residualOf(model, x, y);
    const LD limit = (LD)tol * r.y * (1 + 1e-6L) + 100 * kEps * (n + 3) * r.scale;
    const bool must = max >= 100 && restart >= 5 && tol >= 1e-10;
    SIM_CHECK(std::isfinite((double)r.r), "wrong-solution", "GmresIlu0: the solution is not finite (order %d)", n);
    if (its < max || must) {
      SIM_CHECK(r.r <= limit, "wrong-solution", "GmresIlu0: the residual is %.3Lg instead of %.3Lg at most, after %ld of %d iterations (order %d)", r.r, limit, (long)its, max, n);
      probe("solved-iteratively");
    } else
      probe("gave-up");
  }
  if (!lib("~GmresIlu0", [&] { solver->~G(); })) return false;
  rawFree(solver.p);
  return A.destroy("destructor");
}
}  // namespace

void world_sparse() {
  dense::prepare();
  handles().clear();
  matrices().clear();
  drawMemory(refusals());
  g_plan = Plan{};
  if (flip(6)) g_plan.refuse_at = 1 + (int)draw(4);
  if (flip(20)) g_plan.break_at = 1 + (int)draw(8);
  const uint64_t nb = 1 + draw(2);
  nontrivial();
  for (uint64_t k = 0; k < nb; ++k) {
    bool fine = true;
    switch (draw(8)) {
      case 0: case 1: { Histories<il::int_t> h; fine = h.run(); break; }
      case 2: { Histories<int> h; fine = h.run(); break; }
      case 3: fine = optimized<double>("blas(SparseMatrixBlas<double>)"); break;
      case 4: fine = optimized<float>("blas(SparseMatrixBlas<float>)"); break;
      case 5: fine = dots(); break;
      case 6: fine = direct(); break;
      default: fine = iterations();
    }
    if (!fine) return;
  }
  SIM_CHECK(matrices().empty(), "memory-leak", "a matrix handle was never destroyed");
  checkAllReleased();
}
