// Operands whose sizes do not match, in a debug build (C32).
//
// Every run draws an operation of the linear algebra and the sizes of its
// operands. When the sizes match, the operation must be done; when one of them
// does not, whichever it is and however far, the process must stop.
#include <functional>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2CView.h>
#include <il/Array2D.h>
#include <il/Array2DView.h>
#include <il/BandArray2C.h>
#include <il/SparseMatrixCSR.h>
#include <il/TriDiagonal.h>
#include <il/blas.h>
#include <il/norm.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/sparse/blas/SparseMatrixBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>

#include "seq.h"

using namespace seq;

namespace {
typedef il::int_t I;
const void* volatile g_sink;
template <typename T> void sink(const T& x) { g_sink = &x; }

// Sizes are drawn in [0, kMax]; memory for twice as much lies behind every view.
const I kMax = 6;
const I kStride = 2 * kMax + 2;
// Storage of the operand number k.
template <typename T> T* store(int k) {
  static T s[4][kStride * kStride];
  return s[k];
}
template <typename T> void ones(int k) {
  T* p = store<T>(k);
  for (I i = 0; i < kStride * kStride; ++i) p[i] = T(1);
}
il::ArrayView<int> pivots(I n) {
  static int p[kStride * kStride];
  for (int& x : p) x = 1;
  return il::ArrayView<int>{p, n};
}
template <typename T> il::ArrayView<T> in(int k, I n) { ones<T>(k); return il::ArrayView<T>{store<T>(k), n}; }
template <typename T> il::ArrayEdit<T> io(int k, I n) { ones<T>(k); return il::ArrayEdit<T>{store<T>(k), n}; }
// The stride of a view of a larger matrix, at least n.
I strideFor(I n) { return n > kStride ? n : kStride; }
struct D {
  template <typename T> static il::Array2DView<T> in(int k, I n0, I n1) { ones<T>(k); return il::Array2DView<T>{store<T>(k), n0, n1, strideFor(n0)}; }
  template <typename T> static il::Array2DEdit<T> io(int k, I n0, I n1) { ones<T>(k); return il::Array2DEdit<T>{store<T>(k), n0, n1, strideFor(n0), 0, 0}; }
};
struct C {
  template <typename T> static il::Array2CView<T> in(int k, I n0, I n1) { ones<T>(k); return il::Array2CView<T>{store<T>(k), n0, n1, strideFor(n1)}; }
  template <typename T> static il::Array2CEdit<T> io(int k, I n0, I n1) { ones<T>(k); return il::Array2CEdit<T>{store<T>(k), n0, n1, strideFor(n1), 0, 0}; }
};
template <typename T> il::Array<T> vec(I n) {
  il::Array<T> x{n, T(1)};
  x.Reserve(kStride);
  return x;
}
// A regular matrix when it is square.
template <typename M> M mat(I n0, I n1) {
  M A{n0, n1, 0};
  for (I i = 0; i < n0; ++i)
    for (I j = 0; j < n1; ++j) A(i, j) = i == j ? 8 : 1;
  A.Reserve(kStride, kStride);
  return A;
}
// A full sparse matrix, with room behind its arrays.
template <typename Index, typename T> il::SparseMatrixCSR<Index, T> csr(I n0, I n1) {
  il::Array<Index> column{n0 * n1}, row{n0 + 1};
  il::Array<T> element{n0 * n1};
  for (I i = 0; i < n0; ++i) {
    row[i] = (Index)(i * n1);
    for (I j = 0; j < n1; ++j) {
      column[i * n1 + j] = (Index)j;
      element[i * n1 + j] = i == j ? T(8) : T(1);
    }
  }
  row[n0] = (Index)(n0 * n1);
  column.Reserve(kStride * kStride);
  row.Reserve(kStride);
  element.Reserve(kStride * kStride);
  return il::SparseMatrixCSR<Index, T>{n0, n1, std::move(column), std::move(row), std::move(element)};
}
class Functor : public il::FunctorArray<double> {
  I n0_, n1_;
 public:
  Functor(I n0, I n1) : n0_{n0}, n1_{n1} {}
  il::int_t size(il::int_t d) const override { return d == 0 ? n0_ : n1_; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    for (I i = 0; i < y.size(); ++i) y[i] = x[i];
  }
};

// An operation. The letters are the sizes it takes: those with the same letter
// have to be equal (an upper case letter is the size of a view, that may be as
// large as one likes). There are operations that need more than that.
struct Op {
  const char* what;
  const char* sizes;
  std::function<void(const I*)> f;
  std::function<bool(const I*)> fits;
  I least;
};
struct Ops {
  std::vector<Op> v;
  template <typename F> void add(const char* what, const char* sizes, F f, I least = 0) { v.push_back(Op{what, sizes, std::function<void(const I*)>(f), nullptr, least}); }
  template <typename F, typename G> void addIf(const char* what, const char* sizes, F f, G fits, I least = 0) {
    v.push_back(Op{what, sizes, std::function<void(const I*)>(f), std::function<bool(const I*)>(fits), least});
  }
};
char letter(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
bool fits(const Op& op, const I* d) {
  if (op.fits) return op.fits(d);
  for (int i = 0; op.sizes[i]; ++i)
    for (int j = 0; j < i; ++j)
      if (letter(op.sizes[i]) == letter(op.sizes[j]) && d[i] != d[j]) return false;
  return true;
}

#define N il::Dot::None
#define TR il::Dot::Transpose
#define ST il::Dot::Star
template <typename T> void vectors(Ops& o) {
  o.add("y += a x", "NN", [](const I* d) { il::blas(T(2), in<T>(0, d[0]), il::io, io<T>(1, d[1])); });
  o.add("y = a x + b y", "NN", [](const I* d) { il::blas(T(2), in<T>(0, d[0]), T(2), il::io, io<T>(1, d[1])); });
  o.add("y = a x", "NN", [](const I* d) { il::blas(T(2), in<T>(0, d[0]), T(0), il::io, io<T>(1, d[1])); });
  o.add("dot(x, y) of views", "NN", [](const I* d) { sink(il::dot(in<T>(0, d[0]), in<T>(1, d[1]))); });
  o.add("dot(x, y)", "nn", [](const I* d) { sink(il::dot(vec<T>(d[0]), vec<T>(d[1]))); });
}
template <typename T> void complexVectors(Ops& o) {
  o.add("dot(x*, y) of views", "NN", [](const I* d) { sink(il::dot(in<T>(0, d[0]), ST, in<T>(1, d[1]))); });
  o.add("dot(x, y*) of views", "NN", [](const I* d) { sink(il::dot(in<T>(0, d[0]), in<T>(1, d[1]), ST)); });
  o.add("dot(x, None, y) of views", "NN", [](const I* d) { sink(il::dot(in<T>(0, d[0]), N, in<T>(1, d[1]))); });
  o.add("dot(x, y, None) of views", "NN", [](const I* d) { sink(il::dot(in<T>(0, d[0]), in<T>(1, d[1]), N)); });
  o.add("dot(x*, y)", "nn", [](const I* d) { sink(il::dot(vec<T>(d[0]), ST, vec<T>(d[1]))); });
  o.add("dot(x, y*)", "nn", [](const I* d) { sink(il::dot(vec<T>(d[0]), vec<T>(d[1]), ST)); });
}
template <typename T> void matrixSum(Ops& o) {
  o.add("Y = a X + b Y", "MNMN", [](const I* d) { il::blas(T(2), D::in<T>(0, d[0], d[1]), T(2), il::io, D::io<T>(1, d[2], d[3])); });
  o.add("Y = a X", "MNMN", [](const I* d) { il::blas(T(2), D::in<T>(0, d[0], d[1]), T(0), il::io, D::io<T>(1, d[2], d[3])); });
  o.add("copy of a view in another", "MNMN", [](const I* d) { il::copy(D::in<T>(0, d[0], d[1]), il::io, D::io<T>(1, d[2], d[3])); });
}
template <typename T, typename L> void matrixVector(Ops& o) {
  o.add("y = a A x + b y", "MNNM", [](const I* d) { il::blas(T(2), L::template in<T>(0, d[0], d[1]), in<T>(1, d[2]), T(2), il::io, io<T>(2, d[3])); });
  for (const il::Dot op : {N, TR, ST})
    for (const T b : {T(0), T(2)})
      o.add(op == N ? "y = a A x + b y, A as it is" : op == TR ? "y = a At x + b y" : "y = a A* x + b y", op == N ? "MNNM" : "MNMN",
            [=](const I* d) { il::blas(T(2), L::template in<T>(0, d[0], d[1]), op, in<T>(1, d[2]), b, il::io, io<T>(2, d[3])); });
}
// The result must not be one of the operands.
template <typename T, typename L> void overlap(Ops& o) {
  auto empty = [](const I* d) { return d[0] == 0; };
  for (const il::Dot op : {N, TR, ST}) {
    o.addIf("y = a op(A) y + b y", "n", [=](const I* d) { il::blas(T(2), L::template in<T>(0, d[0], d[0]), op, in<T>(1, d[0]), T(2), il::io, io<T>(1, d[0])); }, empty);
    o.addIf("C = a op(C) B + b C", "n", [=](const I* d) {
      il::blas(T(2), L::template in<T>(0, d[0], d[0]), op, L::template in<T>(1, d[0], d[0]), N, T(2), il::io, L::template io<T>(0, d[0], d[0]));
    }, empty);
    o.addIf("C = a A op(C) + b C", "n", [=](const I* d) {
      il::blas(T(2), L::template in<T>(0, d[0], d[0]), N, L::template in<T>(1, d[0], d[0]), op, T(2), il::io, L::template io<T>(1, d[0], d[0]));
    }, empty);
  }
}
template <typename T, typename L> void matrixMatrix(Ops& o) {
  o.add("C = a A B + b C", "MKKNMN", [](const I* d) {
    il::blas(T(2), L::template in<T>(0, d[0], d[1]), L::template in<T>(1, d[2], d[3]), T(2), il::io, L::template io<T>(2, d[4], d[5]));
  });
  for (const il::Dot p : {N, TR, ST}) {
    o.add(p == N ? "C = a A B + b C, A as it is" : p == TR ? "C = a At B + b C" : "C = a A* B + b C", p == N ? "MKKNMN" : "KMKNMN", [=](const I* d) {
      il::blas(T(2), L::template in<T>(0, d[0], d[1]), p, L::template in<T>(1, d[2], d[3]), T(2), il::io, L::template io<T>(2, d[4], d[5]));
    });
    o.add(p == N ? "C = a A B + b C, B as it is" : p == TR ? "C = a A Bt + b C" : "C = a A B* + b C", p == N ? "MKKNMN" : "MKNKMN", [=](const I* d) {
      il::blas(T(2), L::template in<T>(0, d[0], d[1]), L::template in<T>(1, d[2], d[3]), p, T(2), il::io, L::template io<T>(2, d[4], d[5]));
    });
    for (const il::Dot q : {N, TR, ST})
      for (const T b : {T(0), T(2)})
        o.add("C = a op(A) op(B) + b C", p == N ? (q == N ? "MKKNMN" : "MKNKMN") : (q == N ? "KMKNMN" : "KMNKMN"), [=](const I* d) {
          il::blas(T(2), L::template in<T>(0, d[0], d[1]), p, L::template in<T>(1, d[2], d[3]), q, b, il::io, L::template io<T>(2, d[4], d[5]));
        });
  }
}
template <typename T> void triangular(Ops& o) {
  const il::MatrixType lower = il::MatrixType::LowerUnit, upper = il::MatrixType::UpperNonUnit;
  o.add("permutation", "NNP", [](const I* d) { il::solve(pivots(d[0]), il::io, D::io<T>(1, d[1], d[2])); }, 1);
  for (const il::MatrixType t : {lower, upper})
    o.add("triangular system", "NNNP", [=](const I* d) { il::solve(D::in<T>(0, d[0], d[1]), t, il::io, D::io<T>(1, d[2], d[3])); }, 1);
  o.add("triangular system with a permutation", "NNNNP", [=](const I* d) { il::solve(pivots(d[0]), D::in<T>(0, d[1], d[2]), lower, il::io, D::io<T>(1, d[3], d[4])); }, 1);
  o.add("triangular system with a vector", "NNN", [=](const I* d) { il::solve(D::in<T>(0, d[0], d[1]), upper, il::io, io<T>(1, d[2])); }, 1);
  o.add("triangular system with a transposed matrix", "NNNP", [=](const I* d) { il::solve(D::in<T>(0, d[0], d[1]), upper, TR, il::io, D::io<T>(1, d[2], d[3])); }, 1);
  o.add("triangular system with a permutation and a vector", "NNNN", [=](const I* d) { il::solve(pivots(d[0]), D::in<T>(0, d[1], d[2]), lower, il::io, io<T>(1, d[3])); }, 1);
  o.add("triangular system on the right", "NNPN", [=](const I* d) { il::solveRight(D::in<T>(0, d[0], d[1]), upper, il::io, D::io<T>(1, d[2], d[3])); }, 1);
  o.addIf("orthogonalization", "kMN", [](const I* d) { il::qrDecomposition(il::io, io<T>(0, d[0]), D::io<T>(1, d[1], d[2])); },
          [](const I* d) { return d[0] == (d[1] < d[2] ? d[1] : d[2]); }, 1);
  o.add("LU in place", "NNN", [](const I* d) {
    const il::ArrayView<int> p = pivots(d[0]);
    const il::Array2DEdit<T> A = D::io<T>(1, d[1], d[2]);
    for (I i = 0; i < kMax; ++i) store<T>(1)[i * kStride + i] = T(8);
    il::luDecomposition(il::io, il::ArrayEdit<int>{const_cast<int*>(p.data()), p.size()}, A);
  }, 1);
}
void answered(il::Status& s) { const bool ok = s.Ok(); unused(ok); }

void products(Ops& o) {
  typedef il::Array2D<double> A2D;
  typedef il::Array2C<double> A2C;
  typedef il::Array2D<float> F2D;
  o.add("dot(A, x)", "mnn", [](const I* d) { sink(il::dot(mat<A2D>(d[0], d[1]), vec<double>(d[2]))); });
  o.add("dot(A, x), A by rows", "mnn", [](const I* d) { sink(il::dot(mat<A2C>(d[0], d[1]), vec<double>(d[2]))); });
  o.add("dot(A, B)", "mkkn", [](const I* d) { sink(il::dot(mat<A2D>(d[0], d[1]), mat<A2D>(d[2], d[3]))); });
  o.add("dot(A, B) of floats", "mkkn", [](const I* d) { sink(il::dot(mat<F2D>(d[0], d[1]), mat<F2D>(d[2], d[3]))); });
  o.add("dot(A, B), by rows", "mkkn", [](const I* d) { sink(il::dot(mat<A2C>(d[0], d[1]), mat<A2C>(d[2], d[3]))); });
  for (const il::Norm t : {il::Norm::L1, il::Norm::L2, il::Norm::Linf})
    o.add("weighted norm", "nn", [=](const I* d) { sink(il::norm(vec<double>(d[0]), t, vec<double>(d[1]))); });
}
void systems(Ops& o) {
  typedef il::Array2D<double> A2D;
  typedef il::Array2C<double> A2C;
  o.add("linearSolve(A, y)", "nnn", [](const I* d) { il::Status s{}; sink(il::linearSolve(mat<A2D>(d[0], d[1]), vec<double>(d[2]), il::io, s)); answered(s); }, 1);
  o.add("linearSolve(A, y), A by rows", "nnn", [](const I* d) { il::Status s{}; sink(il::linearSolve(mat<A2C>(d[0], d[1]), vec<double>(d[2]), il::io, s)); answered(s); }, 1);
  for (const I left : {(I)0, (I)1})
    for (const I right : {(I)0, (I)1})
      o.add("linearSolve(A, y), A a band matrix", "nnn", [=](const I* d) {
        il::BandArray2C<double> A{d[0], d[1], left, right};
        for (I i = 0; i < d[0]; ++i)
          for (I j = i - left; j <= i + right; ++j)
            if (j >= 0 && j < d[1]) A(i, j - i) = i == j ? 8.0 : 1.0;
        il::Status s{};
        sink(il::linearSolve(A, vec<double>(d[2]), il::io, s));
        answered(s);
      }, 2);
  o.add("linearSolve(A, y), A tridiagonal", "nn", [](const I* d) {
    il::TriDiagonal<double> A{d[0]};
    for (I i = 0; i < d[0]; ++i) {
      A(i, 0) = 8.0;
      if (i > 0) A(i, -1) = 1.0;
      if (i + 1 < d[0]) A(i, 1) = 1.0;
    }
    il::Status s{};
    sink(il::linearSolve(A, vec<double>(d[1]), il::io, s));
    answered(s);
  }, 2);
  auto lu = [](I n0, I n1, std::function<void(const il::LU<A2D>&)> use) {
    il::Status s{};
    il::LU<A2D> f{mat<A2D>(n0, n1), il::io, s};
    answered(s);
    use(f);
  };
  o.add("LU, solve(y)", "nnn", [=](const I* d) { lu(d[0], d[1], [=](const il::LU<A2D>& f) { sink(f.solve(vec<double>(d[2]))); }); }, 1);
  o.add("LU, solve(Y)", "nnnp", [=](const I* d) { lu(d[0], d[1], [=](const il::LU<A2D>& f) { sink(f.solve(mat<A2D>(d[2], d[3]))); }); }, 1);
  o.add("LU, inverse", "nn", [=](const I* d) { lu(d[0], d[1], [=](const il::LU<A2D>& f) { sink(f.inverse()); }); }, 1);
  o.add("LU, determinant", "nn", [=](const I* d) { lu(d[0], d[1], [=](const il::LU<A2D>& f) { sink(f.determinant()); }); }, 1);
  o.add("LU, condition number", "nn", [=](const I* d) { lu(d[0], d[1], [=](const il::LU<A2D>& f) { sink(f.conditionNumber(il::Norm::L1, 9.0)); }); }, 1);
  o.add("eigenvalues", "nn", [](const I* d) { il::Status s{}; il::Eigen<A2D> e{mat<A2D>(d[0], d[1]), il::io, s}; answered(s); }, 1);
}
void sparse(Ops& o) {
  typedef il::SparseMatrixCSR<int, double> S;
  typedef il::SparseMatrixCSR<I, double> L;
  o.add("y = a A x + b y, A sparse", "mnnm", [](const I* d) { il::Array<double> y = vec<double>(d[3]); il::blas(2.0, csr<int, double>(d[0], d[1]), vec<double>(d[2]), 2.0, il::io, y); }, 1);
  o.add("y = a A x + b y, A sparse with long indices", "mnnm", [](const I* d) { il::Array<double> y = vec<double>(d[3]); il::blas(2.0, csr<I, double>(d[0], d[1]), vec<double>(d[2]), 2.0, il::io, y); }, 1);
  o.add("y = a A x + b y, A a handle", "mnnm", [](const I* d) {
    S A = csr<int, double>(d[0], d[1]);
    il::SparseMatrixBlas<int, double> B{il::io, A};
    il::Array<double> y = vec<double>(d[3]);
    il::blas(2.0, B, vec<double>(d[2]), 2.0, il::io, y);
  }, 1);
  o.add("y = a A x + b y, A a handle of floats", "mnnm", [](const I* d) {
    il::SparseMatrixCSR<int, float> A = csr<int, float>(d[0], d[1]);
    il::SparseMatrixBlas<int, float> B{il::io, A};
    il::Array<float> y = vec<float>(d[3]);
    il::blas(2.0f, B, vec<float>(d[2]), 2.0f, il::io, y);
  }, 1);
  o.add("dot(A, B) of sparse matrices", "mkkn", [](const I* d) { S A = csr<int, double>(d[0], d[1]), B = csr<int, double>(d[2], d[3]); sink(il::dot(il::io, A, B)); }, 1);
  o.add("weighted norm of a sparse matrix", "mnmn", [](const I* d) { sink(il::norm(csr<I, double>(d[0], d[1]), il::Norm::Linf, vec<double>(d[2]), vec<double>(d[3]))); }, 1);
  // the arrays of a matrix
  o.addIf("sparse matrix without elements", "rhwce", [](const I* d) {
    il::Array<I> row{d[0], 0}, column{d[3], 0};
    row[d[0] - 1] = d[4];
    column.Reserve(kStride);
    row.Reserve(kStride);
    sink(L{d[1], d[2], std::move(column), std::move(row)});
  }, [](const I* d) { return d[0] == d[1] + 1 && d[3] == d[4]; }, 1);
  o.addIf("sparse matrix of its arrays", "rhwcev", [](const I* d) {
    il::Array<I> row{d[0], 0}, column{d[3], 0};
    row[d[0] - 1] = d[4];
    column.Reserve(kStride);
    row.Reserve(kStride);
    sink(L{d[1], d[2], std::move(column), std::move(row), vec<double>(d[5])});
  }, [](const I* d) { return d[0] == d[1] + 1 && d[3] == d[4] && d[5] == d[3]; }, 1);
}
void solvers(Ops& o) {
  typedef il::SparseMatrixCSR<int, double> S;
  typedef il::SparseMatrixCSR<I, double> L;
  o.add("incomplete factorization", "nn", [](const I* d) { S A = csr<int, double>(d[0], d[1]); il::GmresIlu0 g{}; g.computePreconditionner(il::io, A); }, 2);
  o.add("GmresIlu0", "nnn", [](const I* d) { S A = csr<int, double>(d[0], d[1]); il::GmresIlu0 g{}; g.computePreconditionner(il::io, A); sink(g.solve(vec<double>(d[2]), il::io, A)); }, 2);
  o.add("Pardiso, symbolic factorization", "nn", [](const I* d) { L A = csr<I, double>(d[0], d[1]); il::Pardiso p{}; p.SymbolicFactorization(A); }, 1);
  o.add("Pardiso", "nnn", [](const I* d) { L A = csr<I, double>(d[0], d[1]); il::Pardiso p{}; p.SymbolicFactorization(A); p.NumericalFactorization(A); sink(p.Solve(A, vec<double>(d[2]))); }, 1);
  o.add("Pardiso, iterations", "nnn", [](const I* d) { L A = csr<I, double>(d[0], d[1]); il::Pardiso p{}; p.SymbolicFactorization(A); p.NumericalFactorization(A); sink(p.SolveIterative(A, vec<double>(d[2]))); }, 1);
  o.addIf("Pardiso, order of the calls", "abc", [](const I* d) {
    L A = csr<I, double>(3, 3), B = csr<I, double>(3, 3);
    il::Pardiso p{};
    if (d[0] > 1) p.SymbolicFactorization(A);
    if (d[1] > 1) p.NumericalFactorization(d[2] > 1 ? A : B);
    if (d[0] % 2) sink(p.Solve(d[2] > 1 ? A : B, vec<double>(3)));
    else sink(p.SolveIterative(d[2] > 1 ? A : B, vec<double>(3)));
  }, [](const I* d) { return d[0] > 1 && d[1] > 1 && d[2] > 1; });
  o.addIf("GmresIlu0, order of the calls", "ab", [](const I* d) {
    S A = csr<int, double>(3, 3), B = csr<int, double>(3, 3);
    il::GmresIlu0 g{};
    if (d[0] > 1) g.computePreconditionner(il::io, A);
    sink(g.solve(vec<double>(3), il::io, d[1] > 1 ? A : B));
  }, [](const I* d) { return d[0] > 1 && d[1] > 1; });
  // without any matrix
  o.add("Cg", "nnn", [](const I* d) { Functor A{d[0], d[1]}; il::Cg<double> s{A}; il::Status st{}; sink(s.Solve(vec<double>(d[2]), il::io, st)); answered(st); }, 1);
  o.add("Cg with a preconditioner", "nnnnn", [](const I* d) { Functor A{d[0], d[1]}, B{d[2], d[3]}; il::Cg<double> s{A, B}; il::Status st{}; sink(s.Solve(vec<double>(d[4]), il::io, st)); answered(st); }, 1);
  o.add("Cg step by step", "nnNN", [](const I* d) { Functor A{d[0], d[1]}; il::Cg<double> s{A}; s.SetToSolve(in<double>(0, d[2])); s.getSolution(il::io, io<double>(1, d[3])); }, 1);
  o.add("Gmres", "nnNN", [](const I* d) { Functor A{d[0], d[1]}; il::Gmres<double> s{A, 5}; il::Status st{}; s.Solve(in<double>(0, d[2]), 1e-6, 10, il::io, io<double>(1, d[3]), st); answered(st); }, 1);
  o.add("Gmres with a preconditioner", "nnnnNN", [](const I* d) {
    Functor A{d[0], d[1]}, B{d[2], d[3]};
    il::Gmres<double> s{A, B, 5};
    il::Status st{};
    s.Solve(in<double>(0, d[4]), 1e-6, 10, il::io, io<double>(1, d[5]), st);
    answered(st);
  }, 1);
  o.add("Gmres step by step", "nnNN", [](const I* d) { Functor A{d[0], d[1]}; il::Gmres<double> s{A, 5}; s.SetToSolve(in<double>(0, d[2])); s.Next(); s.getSolution(il::io, io<double>(1, d[3])); }, 1);
  o.add("Gmres step by step, with arrays", "nnnn", [](const I* d) { Functor A{d[0], d[1]}; il::Gmres<double> s{A, 5}; s.SetToSolve(vec<double>(d[2])); s.Next(); il::Array<double> x = vec<double>(d[3]); s.getSolution(il::io, x); }, 1);
}
#undef N
#undef TR
#undef ST

const Ops& operations() {
  static Ops* all = nullptr;
  if (all == nullptr) {
    Host h;
    all = new Ops;
    typedef std::complex<float> CF;
    typedef std::complex<double> CD;
    vectors<float>(*all); vectors<double>(*all); vectors<CF>(*all); vectors<CD>(*all);
    complexVectors<CF>(*all); complexVectors<CD>(*all);
    matrixSum<double>(*all); matrixSum<CD>(*all);
    matrixVector<float, D>(*all); matrixVector<double, D>(*all); matrixVector<CF, D>(*all); matrixVector<CD, D>(*all);
    matrixVector<float, C>(*all); matrixVector<double, C>(*all); matrixVector<CF, C>(*all); matrixVector<CD, C>(*all);
    matrixMatrix<float, D>(*all); matrixMatrix<double, D>(*all); matrixMatrix<CF, D>(*all); matrixMatrix<CD, D>(*all);
    matrixMatrix<float, C>(*all); matrixMatrix<double, C>(*all); matrixMatrix<CF, C>(*all); matrixMatrix<CD, C>(*all);
    overlap<float, D>(*all); overlap<double, D>(*all); overlap<CF, D>(*all); overlap<CD, D>(*all);
    overlap<float, C>(*all); overlap<double, C>(*all); overlap<CF, C>(*all); overlap<CD, C>(*all);
    triangular<double>(*all); triangular<CD>(*all);
    products(*all);
    systems(*all);
    sparse(*all);
    solvers(*all);
  }
  return *all;
}
std::string shown(const Op& op, const I* d) {
  std::string s;
  for (int i = 0; op.sizes[i]; ++i) s += (i ? ", " : "") + std::to_string(d[i]);
  return s;
}
}  // namespace

void world_sizes() {
  drawMemory(false);
  const Ops& all = operations();
  // a general operation or one of the many products
  const Op& op = all.v[pick(all.v.size())];
  I d[8] = {};
  // sizes that match
  const bool any = (bool)op.fits;
  I byLetter[26];
  for (I& x : byLetter) x = op.least + (I)pick((uint64_t)(kMax - op.least) + 1);
  for (int i = 0; op.sizes[i]; ++i) d[i] = byLetter[letter(op.sizes[i]) - 'a'];
  const int nb = (int)strlen(op.sizes);
  if (any)
    for (int tries = 0; tries < 20000 && !fits(op, d); ++tries) d[pick((uint64_t)nb)] = op.least + (I)pick((uint64_t)(kMax - op.least) + 1);
  if (!fits(op, d)) return;
  const std::string good = shown(op, d);
  if (pick(2)) {
    ev("match", op.what, good);
    note("%s: %s", op.what, good.c_str());
    SIM_CHECK(guarded([&] { op.f(d); }) != End::Died, "refused", "%s with the sizes %s stopped the process although they match (%s)", op.what, good.c_str(), g_death);
  }
  // one of them changed
  const int n = 1 + (int)pick(3);
  for (int k = 0; k < n; ++k) {
    I b[8];
    for (int i = 0; i < 8; ++i) b[i] = d[i];
    const int s = (int)pick((uint64_t)nb);
    const bool view = op.sizes[s] >= 'A' && op.sizes[s] <= 'Z';
    switch (pick(view ? 6 : 4)) {
      case 0: b[s] += 1; break;
      case 1: b[s] -= 1; break;
      case 2: b[s] = 0; break;
      case 3: b[s] = (I)pick(kMax + 2); break;
      case 4: b[s] += (I)1 << 32; break;
      default: b[s] += (I)1 << (31 + pick(8)); break;
    }
    if (b[s] < 0 || (any && (b[s] < op.least || b[s] > kMax + 1)) || fits(op, b)) continue;
    const std::string bad = shown(op, b);
    ev("mismatch", op.what, bad);
    note("%s: %s", op.what, bad.c_str());
    SIM_CHECK(guarded([&] { op.f(b); }) == End::Died, "accepted", "%s with the sizes %s was accepted in a debug build although they do not match", op.what, bad.c_str());
    fault("sizes-that-do-not-match");
    nontrivial();
  }
}
