// Checked arithmetic and integer helpers (C34).
//
// Every run makes a program of calls: an operation, a type, operands near the
// places where results stop to fit, and a variable for the error that still
// holds what a former call left in it.  Results are judged by arithmetic on
// 128 bits.
#include <climits>
#include <complex>
#include <limits>

#include <il/core/math/safe_arithmetic.h>
#include <il/math.h>

#include "arith.h"
#include "seq.h"

using namespace seq;
using arith::Wide;

namespace {
const char* kOp[] = {"safeSum", "safeDifference", "safeProduct", "safeProduct of 3", "safeProduct of 4", "safeProduct2Positive", "safeDivision", "safeUpperRound", "safeConvert"};
const char* kTy[] = {"int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"};

bool isSigned(int ty) { return ty % 2 == 0; }
int bits(int ty) { return ty < 2 ? 32 : 64; }
Wide least(int ty) { return isSigned(ty) ? -((Wide)1 << (bits(ty) - 1)) : 0; }
Wide greatest(int ty) { return ((Wide)1 << (bits(ty) - (isSigned(ty) ? 1 : 0))) - 1; }
bool fits(Wide x, int ty) { return x >= least(ty) && x <= greatest(ty); }

std::string text(Wide x) {
  std::string s;
  const bool neg = x < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)x : (unsigned __int128)x;
  do {
    s.insert(s.begin(), (char)('0' + (int)(u % 10)));
    u /= 10;
  } while (u != 0);
  return neg ? "-" + s : s;
}
uint64_t any64() { return ((uint64_t)pick(1u << 31) << 42) ^ ((uint64_t)pick(1u << 31) << 21) ^ (uint64_t)pick(1u << 31); }
uint64_t root(Wide x) {
  uint64_t r = 0;
  for (int b = 63; b >= 0; --b) {
    const uint64_t t = r | ((uint64_t)1 << b);
    if ((unsigned __int128)t * t <= (unsigned __int128)x) r = t;
  }
  return r;
}
Wide into(Wide x, int ty) { return x < least(ty) ? least(ty) : x > greatest(ty) ? greatest(ty) : x; }
// An operand: other is one of the former ones.
Wide operand(int ty, Wide other) {
  const Wide d = (Wide)(int)pick(7) - 3;
  Wide x = 0;
  switch (pick(11)) {
    case 0: x = greatest(ty) + d; break;
    case 1: x = least(ty) + d; break;
    case 2: x = d; break;
    case 3: x = (Wide)root(greatest(ty)) + d; break;
    case 4: x = ((Wide)1 << pick((uint64_t)bits(ty))) + d; break;
    case 5: x = other != 0 ? greatest(ty) / other + d : d; break;
    case 6: x = other != 0 ? least(ty) / other + d : d; break;
    case 7: x = greatest(ty) - other + d; break;
    case 8: x = other - (pick(2) ? greatest(ty) : least(ty)) + d; break;
    case 9: x = (Wide)(any64() >> pick(64)); break;
    default: x = (Wide)(any64() >> (64 - bits(ty) / 2)) + d; break;
  }
  if (isSigned(ty) && pick(3) == 0) x = -x;
  return into(x, ty);
}

struct Want {
  bool mayFail, mustFail;
  Wide value;
};
// the product of k factors, or false when it is beyond 128 bits
bool product(const Wide* a, int k, Wide& p) {
  p = 1;
  for (int i = 0; i < k; ++i)
    if (a[i] == 0) {
      p = 0;
      return true;
    }
  for (int i = 0; i < k; ++i) {
    if (p > ((Wide)1 << 65) || p < -((Wide)1 << 65)) return false;  // no factor is 0
    // |p| <= 2^65 and |a| <= 2^64: refuse what comes near 2^127
    const Wide ap = p < 0 ? -p : p, aa = a[i] < 0 ? -a[i] : a[i];
    if (aa > (((Wide)1 << 126) / ap)) return false;
    p *= a[i];
  }
  return true;
}
Want want(int op, int ty, const Wide* a) {
  Want w{false, false, 0};
  bool known = true;
  switch (op) {
    case arith::Sum: w.value = a[0] + a[1]; break;
    case arith::Difference: w.value = a[0] - a[1]; break;
    case arith::Product: known = product(a, 2, w.value); break;
    case arith::Product3:
    case arith::Product4: {
      const int k = op == arith::Product3 ? 3 : 4;
      known = product(a, k, w.value);
      // products are formed from the left, or in pairs: one of those that does not
      // fit may be reported even if a factor makes the whole product small again
      for (int i = 0; i < k; ++i)
        for (int j = i + 2; j <= k; ++j) {
          Wide p;
          if (!product(a + i, j - i, p) || !fits(p, ty)) w.mayFail = true;
        }
      break;
    }
    case arith::Twice: w.value = 2 * a[0]; break;
    case arith::Division:
      if (a[1] == 0) known = false;
      else w.value = a[0] / a[1];
      break;
    case arith::UpperRound: w.value = (a[0] + a[1] - 1) / a[1] * a[1]; break;
    default: w.value = a[0]; ty = ty ^ 1; break;
  }
  w.mustFail = !known || !fits(w.value, ty);
  if (w.mustFail) w.mayFail = true;
  return w;
}

bool checked(bool& error) {
  const int op = (int)pick(arith::nOp);
  int ty = (int)pick(arith::nTy);
  if (op == arith::Twice) ty = arith::Long;
  if (op != arith::Sum && op != arith::Product && op != arith::Convert) ty &= ~1;
  Wide a[4] = {0, 0, 0, 0};
  for (int i = 0; i < 4; ++i) {
    a[i] = operand(ty, i == 0 ? 0 : a[pick((uint64_t)i)]);
    if (op >= arith::Product3 && op <= arith::Product4 && pick(2)) {  // products that come near the limit
      Wide p = 1;
      for (int j = 0; j < i; ++j) p = p > greatest(ty) || p < least(ty) || a[j] == 0 ? p : p * a[j];
      if (p != 0) a[i] = into(greatest(ty) / p + (int)pick(3) - 1, ty);
    }
    if (op >= arith::Product3 && op <= arith::Product4 && i < 3 && pick(3) == 0) a[i] = into((Wide)(any64() >> (50 + pick(14))), ty);
  }
  if (op == arith::Twice || op == arith::UpperRound) {
    if (a[0] < 0) a[0] = into(-a[0], ty);
    if (a[1] < 0) a[1] = into(-a[1], ty);
    if (op == arith::UpperRound && a[1] == 0) a[1] = 1;
  }
  const Want w = want(op, ty, a);
  const bool before = error;
  const bool builtin = pick(2) == 0;
  Wide got = 0;
  if (!sut(kOp[op], [&] { got = builtin ? arith::builtin(op, ty, a, error) : arith::portable(op, ty, a, error); })) return false;
  std::string call = std::string(kOp[op]) + (builtin ? " [builtin] " : " ") + "of type " + kTy[ty] + " with";
  const int n = op == arith::Product4 ? 4 : op == arith::Product3 ? 3 : op == arith::Twice || op == arith::Convert ? 1 : 2;
  for (int i = 0; i < n; ++i) call += " " + text(a[i]);
  SIM_CHECK(!(w.mustFail && !error), "missed-overflow", "%s: no error, result %s (the variable held %d before)", call.c_str(), text(got).c_str(), before);
  SIM_CHECK(w.mayFail || !error, "false-overflow", "%s: an error although the result fits (the variable held %d before)", call.c_str(), before);
  if (!error) SIM_CHECK(got == w.value, "wrong-result", "%s: %s", call.c_str(), text(got).c_str());
  probe(w.mustFail ? "does-not-fit" : "fits");
  evt("call", op, ty, error, (uint64_t)got);
  nontrivial();
  return true;
}

#define EXACT(expr, expected, ...) \
  do { \
    const auto got_ = (expr); \
    SIM_CHECK((Wide)got_ == (Wide)(expected), "wrong-helper", __VA_ARGS__, text((Wide)got_).c_str()); \
  } while (0)

// x to the power n, false when it does not fit
bool power(Wide x, int n, int ty, Wide& p) {
  p = 1;
  for (int i = 0; i < n; ++i) {
    p *= x;
    if (!fits(p, ty)) return false;
  }
  return true;
}
bool helpers() {
  uint64_t x = any64() >> pick(64);
  switch (pick(3)) {
    case 0: x = ((uint64_t)1 << pick(64)) + pick(3) - 1; break;
    case 1: x = (uint64_t)operand(arith::UnsignedLong, 0); break;
    default: break;
  }
  const int64_t y = (int64_t)(any64() >> pick(64)) * (pick(2) ? 1 : -1);
  const int64_t z = pick(4) ? (int64_t)(any64() >> pick(64)) : y + (int64_t)pick(3) - 1;
  const int i0 = (int)y, i1 = (int)z;
  bool fine = true;
  switch (pick(8)) {
    case 0: {
      int k = 0;
      while (k < 64 && ((Wide)1 << k) < (Wide)x) ++k;
      int got = 0;
      if (!sut("nextLog2", [&] { got = il::nextLog2((std::size_t)x); })) return false;
      EXACT(got, k, "nextLog2(%llu) is %s", (unsigned long long)x);
      break;
    }
    case 1: {
      const unsigned u = (unsigned)x;
      int k = 0;
      while (k < 32 && ((Wide)1 << k) < (Wide)u) ++k;
      int got = 0;
      if (!sut("next_log2_32", [&] { got = il::next_log2_32(u); })) return false;
      EXACT(got, k, "next_log2_32(%u) is %s", u);
      break;
    }
    case 2: {
      if (x == 0) x = 1;
      Wide p = 1;
      while (2 * p <= (Wide)x) p *= 2;
      uint64_t got = 0;
      if (!sut("previous_power_of_2_64", [&] { got = il::previous_power_of_2_64(x); })) return false;
      EXACT(got, p, "previous_power_of_2_64(%llu) is %s", (unsigned long long)x);
      if (p != (Wide)x) p *= 2;
      if (p < ((Wide)1 << 64)) {
        if (!sut("next_power_of_2_64", [&] { got = il::next_power_of_2_64(x); })) return false;
        EXACT(got, p, "next_power_of_2_64(%llu) is %s", (unsigned long long)x);
      }
      break;
    }
    case 3: {
      unsigned u = (unsigned)x;
      if (u == 0) u = 1;
      Wide p = 1;
      while (2 * p <= (Wide)u) p *= 2;
      unsigned got = 0;
      if (!sut("previous_power_of_2_32", [&] { got = il::previous_power_of_2_32(u); })) return false;
      EXACT(got, p, "previous_power_of_2_32(%u) is %s", u);
      if (p != (Wide)u) p *= 2;
      if (p < ((Wide)1 << 32)) {
        if (!sut("next_power_of_2_32", [&] { got = il::next_power_of_2_32(u); })) return false;
        EXACT(got, p, "next_power_of_2_32(%u) is %s", u);
      }
      break;
    }
    case 4: {
      const int64_t base = pick(2) ? (int64_t)pick(12) - 5 : y >> 40;
      const int n = (int)pick(64);
      Wide p;
      int got = 0;
      if (power(base, n, arith::Int, p)) {
        if (!sut("ipow", [&] { got = il::ipow((int)base, (il::int_t)n); })) return false;
        EXACT(got, p, "ipow(%lld, %d) of type int is %s", (long long)base, n);
      }
      long long wide = 0;
      if (power(base, n, arith::LongLong, p)) {
        if (!sut("ipow", [&] { wide = il::ipow((long long)base, (il::int_t)n); })) return false;
        EXACT(wide, p, "ipow(%lld, %d) of type long long is %s", (long long)base, n);
        const double d = (double)base;
        double r = 0.0;
        if (!sut("ipow", [&] { r = il::ipow(d, (il::int_t)n); })) return false;
        if (p < ((Wide)1 << 53) && p > -((Wide)1 << 53)) SIM_CHECK(r == (double)p, "wrong-helper", "ipow(%g, %d) is %.17g", d, n, r);
      }
      long long one = 0;
#define FIXED(N) \
  if (power(base, N, arith::LongLong, p)) { \
    if (!sut("ipow", [&] { one = il::ipow<N>((long long)base); })) return false; \
    EXACT(one, p, "ipow<%d>(%lld) is %s", N, (long long)base); \
  }
      switch (n % 9) {
        case 0: FIXED(1) break;
        case 1: FIXED(2) break;
        case 2: FIXED(3) break;
        case 3: FIXED(4) break;
        case 4: FIXED(5) break;
        case 5: FIXED(6) break;
        case 6: FIXED(7) break;
        case 7: FIXED(11) break;
        default: FIXED(16) break;
      }
      break;
    }
    case 5: {
      const int64_t v[6] = {y, z, (int64_t)pick(10) - 5, pick(2) ? y : z, -z / 2, (int64_t)x / 3};
      int64_t most = v[0], low = v[0], got[7] = {0, 0, 0, 0, 0, 0, 0};
      if (!sut("max", [&] {
            got[0] = il::max(v[0], v[1]);
            got[1] = il::max(v[0], v[1], v[2]);
            got[2] = il::max(v[0], v[1], v[2], v[3]);
            got[3] = il::max(v[0], v[1], v[2], v[3], v[4]);
            got[4] = il::max(v[0], v[1], v[2], v[3], v[4], v[5]);
            got[5] = il::min(v[0], v[1]);
            got[6] = il::min(v[0], v[1], v[2], v[3]);
          })) return false;
      for (int k = 1; k < 6; ++k) {
        if (v[k] > most) most = v[k];
        if (k < 4 && v[k] < low) low = v[k];
        fine = fine && got[k - 1] == most;
        if (k == 1) fine = fine && got[5] == low;
      }
      fine = fine && got[6] == low;
      SIM_CHECK(fine, "wrong-helper", "max or min of %lld %lld %lld %lld %lld %lld", (long long)v[0], (long long)v[1], (long long)v[2], (long long)v[3], (long long)v[4], (long long)v[5]);
      break;
    }
    case 6: {
      double got = 0.0;
      il::int_t down = 0, absI = 0;
      int absi = 0;
      const double d = (double)(y >> 20) / (double)(1 + (z & 1023));
      if (!sut("abs", [&] {
            got = il::abs(d);
            if (y != LLONG_MIN) absI = il::abs((il::int_t)y);
            if (i0 != INT_MIN) absi = il::abs(i0);
            down = il::floor(d);
          })) return false;
      SIM_CHECK(got == (d < 0.0 ? -d : d), "wrong-helper", "abs(%.17g) is %.17g", d, got);
      if (y != LLONG_MIN) EXACT(absI, y < 0 ? -(Wide)y : (Wide)y, "abs(%lld) is %s", (long long)y);
      if (i0 != INT_MIN) EXACT(absi, i0 < 0 ? -(Wide)i0 : (Wide)i0, "abs(%d) is %s", i0);
      SIM_CHECK((double)down <= d && d < (double)down + 1.0, "wrong-helper", "floor(%.17g) is %lld", d, (long long)down);
      break;
    }
    default: {
      const il::int_t a = y < 0 ? -(y + 1) : y, b = 1 + (z & 0xFFFFF);
      const int c = 1 + (i1 & 0xFFFF);
      il::int_t g0 = 0, g1 = 0;
      if (!sut("floor", [&] {
            g0 = il::floor(a, b);
            g1 = il::floor(a, c);
          })) return false;
      EXACT(g0, (Wide)(a - a % b), "floor(%lld, %lld) is %s", (long long)a, (long long)b);
      EXACT(g1, (Wide)(a - a % c), "floor(%lld, %d) is %s", (long long)a, c);
      break;
    }
  }
  evt("helper", x);
  nontrivial();
  return true;
}
}  // namespace

void world_arith() {
  drawMemory(false);
  bool error = pick(2) != 0;  // what an earlier call, or nobody, left there
  const int n = 1 + (int)pick(40);
  for (int k = 0; k < n; ++k) {
    if (pick(5) == 0) error = !error;
    if (pick(4) == 0) {
      if (!helpers()) return;
    } else if (!checked(error))
      return;
  }
  checkAllReleased();
}
