// The two implementations of il/core/math/safe_arithmetic.h.  The second one is
// compiled in a namespace of its own (-DARITH_BUILTIN).
#include "arith.h"

#include <climits>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <limits>

#ifdef ARITH_BUILTIN
#define IL_BUILTIN_SAFE_ARITHMETIC 1
#define il il_builtin
#define NAME builtin
#else
#define NAME portable
#endif
#include <il/core/math/safe_arithmetic.h>

namespace {
using arith::Wide;
template <typename T>
__attribute__((noinline)) Wide both(int op, const Wide* a, bool& error) {
  switch (op) {
    case arith::Sum: return il::safeSum((T)a[0], (T)a[1], il::io, error);
    default: return il::safeProduct((T)a[0], (T)a[1], il::io, error);
  }
}
template <typename T, typename U>
__attribute__((noinline)) Wide all(int op, const Wide* a, bool& error) {
  switch (op) {
    case arith::Difference: return il::safeDifference((T)a[0], (T)a[1], il::io, error);
    case arith::Product3: return il::safeProduct((T)a[0], (T)a[1], (T)a[2], il::io, error);
    case arith::Product4: return il::safeProduct((T)a[0], (T)a[1], (T)a[2], (T)a[3], il::io, error);
    case arith::Division: return il::safeDivision((T)a[0], (T)a[1], il::io, error);
    case arith::UpperRound: return il::safeUpperRound((T)a[0], (T)a[1], il::io, error);
    case arith::Convert: return il::safeConvert<U>((T)a[0], il::io, error);
    default: return both<T>(op, a, error);
  }
}
template <typename T, typename U>
__attribute__((noinline)) Wide some(int op, const Wide* a, bool& error) {
  if (op == arith::Convert) return il::safeConvert<U>((T)a[0], il::io, error);
  return both<T>(op, a, error);
}
}  // namespace

namespace arith {
Wide NAME(int op, int ty, const Wide* a, bool& error) {
  if (op == Twice) return il::safeProduct2Positive((long)a[0], il::io, error);
  switch (ty) {
    case Int: return all<int, unsigned>(op, a, error);
    case Unsigned: return some<unsigned, int>(op, a, error);
    case Long: return all<long, unsigned long>(op, a, error);
    case UnsignedLong: return some<unsigned long, long>(op, a, error);
    case LongLong: return all<long long, unsigned long long>(op, a, error);
    default: return some<unsigned long long, long long>(op, a, error);
  }
}
}  // namespace arith
