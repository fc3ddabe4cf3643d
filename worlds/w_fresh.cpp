// Elements nobody has set, in a debug build (C33).
//
// The memory the containers get is full of garbage. Every run makes an array of
// a drawn class and sizes, then resizes, reserves, copies, moves and writes it.
// A model knows which elements have been set: those keep their value, all the
// others hold the value that the documentation promises.
#include <cmath>
#include <complex>
#include <limits>
#include <typeinfo>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/UpperArray2D.h>

#include "seq.h"

using namespace seq;

namespace {
typedef il::int_t I;

// ---- what the documentation says of an element that has not been set
template <typename T> struct Value {
  // the largest integer that is written 1234567891234567891...
  static bool fresh(T x) {
    if (sizeof(T) == 1) return x == (T)123;
    if (sizeof(T) == 2) return x == (T)12345;
    if (sizeof(T) == 4) return x == (T)1234567891;
    return (uint64_t)x == 1234567891234567891ull;
  }
  static T make(uint64_t k) { return (T)(k % 100); }
};
template <> struct Value<double> { static bool fresh(double x) { return std::isnan(x); } static double make(uint64_t k) { return (double)k + 0.5; } };
template <> struct Value<float> { static bool fresh(float x) { return std::isnan(x); } static float make(uint64_t k) { return (float)(k % 1000) + 0.5f; } };
template <> struct Value<long double> { static bool fresh(long double x) { return std::isnan(x); } static long double make(uint64_t k) { return (long double)k + 0.5l; } };
template <typename R> struct Value<std::complex<R>> {
  static bool fresh(const std::complex<R>& x) { return std::isnan(x.real()) && std::isnan(x.imag()); }
  static std::complex<R> make(uint64_t k) { return std::complex<R>{(R)(k % 1000), (R)(k % 7)}; }
};

// ---- the classes
struct Ix { I v[4]; };
template <typename A> struct Of;
// rank, type, how it is made and accessed
#define GROWING(R) static const int rank = R; static const bool grows = true; static const bool square = false; static I bound(int) { return 1000; }
template <typename T> struct Of<il::Array<T>> {
  typedef T type;
  typedef il::Array<T> A;
  GROWING(1)
  static const int makers = 3;
  static void make(void* p, const Ix& n, int how, I al) {
    if (how == 0) new (p) A{n.v[0]};
    else if (how == 1) new (p) A{n.v[0], il::align, al};
    else new (p) A{n.v[0], il::align, al, 0, al};
  }
  static void Resize(A& a, const Ix& n) { a.Resize(n.v[0]); }
  static void Reserve(A& a, const Ix& n) { a.Reserve(n.v[0]); }
  static I size(const A& a, int) { return a.size(); }
  static T& at(A& a, const Ix& i) { return a[i.v[0]]; }
};
template <typename T, I s> struct Of<il::SmallArray<T, s>> {
  typedef T type;
  typedef il::SmallArray<T, s> A;
  GROWING(1)
  static const int makers = 1;
  static void make(void* p, const Ix& n, int, I) { new (p) A{n.v[0]}; }
  static void Resize(A& a, const Ix& n) { a.Resize(n.v[0]); }
  static void Reserve(A& a, const Ix& n) { a.Reserve(n.v[0]); }
  static I size(const A& a, int) { return a.size(); }
  static T& at(A& a, const Ix& i) { return a[i.v[0]]; }
};
template <typename T> struct Of<il::Array2D<T>> {
  typedef T type;
  typedef il::Array2D<T> A;
  GROWING(2)
  static const int makers = 3;
  static void make(void* p, const Ix& n, int how, I al) {
    if (how == 0) new (p) A{n.v[0], n.v[1]};
    else if (how == 1) new (p) A{n.v[0], n.v[1], il::align, al};
    else new (p) A{n.v[0], n.v[1], il::align, al, 0, al};
  }
  static void Resize(A& a, const Ix& n) { a.Resize(n.v[0], n.v[1]); }
  static void Reserve(A& a, const Ix& n) { a.Reserve(n.v[0], n.v[1]); }
  static I size(const A& a, int d) { return a.size(d); }
  static T& at(A& a, const Ix& i) { return a(i.v[0], i.v[1]); }
};
template <typename T> struct Of<il::Array2C<T>> {
  typedef T type;
  typedef il::Array2C<T> A;
  GROWING(2)
  static const int makers = 3;
  static void make(void* p, const Ix& n, int how, I al) {
    if (how == 0) new (p) A{n.v[0], n.v[1]};
    else if (how == 1) new (p) A{n.v[0], n.v[1], il::align, al};
    else new (p) A{n.v[0], n.v[1], il::align, al, 0, al};
  }
  static void Resize(A& a, const Ix& n) { a.Resize(n.v[0], n.v[1]); }
  static void Reserve(A& a, const Ix& n) { a.Reserve(n.v[0], n.v[1]); }
  static I size(const A& a, int d) { return a.size(d); }
  static T& at(A& a, const Ix& i) { return a(i.v[0], i.v[1]); }
};
template <typename B, typename T> struct Of3 {
  typedef T type;
  typedef B A;
  GROWING(3)
  static const int makers = 3;
  static void make(void* p, const Ix& n, int how, I al) {
    if (how == 0) new (p) A{n.v[0], n.v[1], n.v[2]};
    else if (how == 1) new (p) A{n.v[0], n.v[1], n.v[2], il::align, al};
    else new (p) A{n.v[0], n.v[1], n.v[2], il::align, al, 0, al};
  }
  static void Resize(A& a, const Ix& n) { a.Resize(n.v[0], n.v[1], n.v[2]); }
  static void Reserve(A& a, const Ix& n) { a.Reserve(n.v[0], n.v[1], n.v[2]); }
  static I size(const A& a, int d) { return a.size(d); }
  static T& at(A& a, const Ix& i) { return a(i.v[0], i.v[1], i.v[2]); }
};
template <typename T> struct Of<il::Array3D<T>> : Of3<il::Array3D<T>, T> {};
template <typename T> struct Of<il::Array3C<T>> : Of3<il::Array3C<T>, T> {};
template <typename B, typename T> struct Of4 {
  typedef T type;
  typedef B A;
  GROWING(4)
  static const int makers = 1;
  static void make(void* p, const Ix& n, int, I) { new (p) A{n.v[0], n.v[1], n.v[2], n.v[3]}; }
  static void Resize(A& a, const Ix& n) { a.Resize(n.v[0], n.v[1], n.v[2], n.v[3]); }
  static void Reserve(A& a, const Ix& n) { a.Reserve(n.v[0], n.v[1], n.v[2], n.v[3]); }
  static I size(const A& a, int d) { return a.size(d); }
  static T& at(A& a, const Ix& i) { return a(i.v[0], i.v[1], i.v[2], i.v[3]); }
};
template <typename T> struct Of<il::Array4D<T>> : Of4<il::Array4D<T>, T> {};
template <typename T> struct Of<il::Array4C<T>> : Of4<il::Array4C<T>, T> {};
// of fixed size
template <typename B, typename T> struct OfFixed {
  typedef T type;
  typedef B A;
  static const bool grows = false;
  static const bool square = false;
  static const int makers = 1;
  static void make(void* p, const Ix&, int, I) { new (p) A; }
  static void Resize(A&, const Ix&) {}
  static void Reserve(A&, const Ix&) {}
};
template <typename T, I n> struct Of<il::StaticArray<T, n>> : OfFixed<il::StaticArray<T, n>, T> {
  static const int rank = 1;
  static I size(const il::StaticArray<T, n>& a, int) { return a.size(); }
  static I bound(int) { return n; }
  static T& at(il::StaticArray<T, n>& a, const Ix& i) { return a[i.v[0]]; }
};
template <typename T, I n0, I n1> struct Of<il::StaticArray2D<T, n0, n1>> : OfFixed<il::StaticArray2D<T, n0, n1>, T> {
  static const int rank = 2;
  static I size(const il::StaticArray2D<T, n0, n1>& a, int d) { return a.size(d); }
  static I bound(int d) { return d == 0 ? n0 : n1; }
  static T& at(il::StaticArray2D<T, n0, n1>& a, const Ix& i) { return a(i.v[0], i.v[1]); }
};
template <typename T, I n0, I n1> struct Of<il::StaticArray2C<T, n0, n1>> : OfFixed<il::StaticArray2C<T, n0, n1>, T> {
  static const int rank = 2;
  static I size(const il::StaticArray2C<T, n0, n1>& a, int d) { return a.size(d); }
  static I bound(int d) { return d == 0 ? n0 : n1; }
  static T& at(il::StaticArray2C<T, n0, n1>& a, const Ix& i) { return a(i.v[0], i.v[1]); }
};
template <typename T, I n0, I n1, I n2> struct Of<il::StaticArray3D<T, n0, n1, n2>> : OfFixed<il::StaticArray3D<T, n0, n1, n2>, T> {
  static const int rank = 3;
  static I size(const il::StaticArray3D<T, n0, n1, n2>& a, int d) { return a.size(d); }
  static I bound(int d) { return d == 0 ? n0 : d == 1 ? n1 : n2; }
  static T& at(il::StaticArray3D<T, n0, n1, n2>& a, const Ix& i) { return a(i.v[0], i.v[1], i.v[2]); }
};
template <typename T, I n0, I n1, I n2, I n3> struct Of<il::StaticArray4D<T, n0, n1, n2, n3>> : OfFixed<il::StaticArray4D<T, n0, n1, n2, n3>, T> {
  static const int rank = 4;
  static I size(const il::StaticArray4D<T, n0, n1, n2, n3>& a, int d) { return a.size(d); }
  static I bound(int d) { return d == 0 ? n0 : d == 1 ? n1 : d == 2 ? n2 : n3; }
  static T& at(il::StaticArray4D<T, n0, n1, n2, n3>& a, const Ix& i) { return a(i.v[0], i.v[1], i.v[2], i.v[3]); }
};
// triangular
template <typename T> struct Of<il::LowerArray2D<T>> {
  typedef T type;
  typedef il::LowerArray2D<T> A;
  static const int rank = 2, makers = 1;
  static const bool grows = false, square = true, lower = true;
  static I bound(int) { return 1000; }
  static void make(void* p, const Ix& n, int, I) { new (p) A{n.v[0]}; }
  static void Resize(A&, const Ix&) {}
  static void Reserve(A&, const Ix&) {}
  static I size(const A& a, int) { return a.size(); }
  static T& at(A& a, const Ix& i) { return i.v[0] >= i.v[1] ? a(i.v[0], i.v[1]) : a(i.v[1], i.v[0]); }
};
template <typename T> struct Of<il::UpperArray2D<T>> {
  typedef T type;
  typedef il::UpperArray2D<T> A;
  static const int rank = 2, makers = 1;
  static const bool grows = false, square = true;
  static I bound(int) { return 1000; }
  static void make(void* p, const Ix& n, int, I) { new (p) A{n.v[0]}; }
  static void Resize(A&, const Ix&) {}
  static void Reserve(A&, const Ix&) {}
  static I size(const A& a, int) { return a.size(); }
  static T& at(A& a, const Ix& i) { return i.v[0] <= i.v[1] ? a(i.v[0], i.v[1]) : a(i.v[1], i.v[0]); }
};

const I kSide = 12;
I g_side = kSide;  // of the model
template <typename T> struct Model {
  Ix n;
  std::vector<T> value;
  std::vector<char> set;
  Model() : n{{0, 0, 0, 0}} {}
};
I flat(int rank, const Ix& i) {
  I k = 0;
  for (int d = 0; d < rank; ++d) k = k * g_side + i.v[d];
  return k;
}
I volume(int rank) { I k = 1; for (int d = 0; d < rank; ++d) k *= g_side; return k; }
// f for all indices below n
template <typename F> void each(int rank, const Ix& n, F f) {
  Ix i = {{0, 0, 0, 0}};
  for (int d = 0; d < rank; ++d)
    if (n.v[d] == 0) return;
  for (;;) {
    f(i);
    int d = 0;
    while (d < rank && ++i.v[d] == n.v[d]) i.v[d++] = 0;
    if (d == rank) return;
  }
}
template <typename A> Ix drawSizes(I max) {
  typedef Of<A> O;
  Ix n = {{0, 0, 0, 0}};
  for (int d = 0; d < O::rank; ++d) n.v[d] = O::bound(d) < 1000 ? O::bound(d) : (I)scaled((int)pick((uint64_t)max + 1), (int)g_side);
  if (O::square) n.v[1] = n.v[0];
  return n;
}
template <typename A> bool check(A& a, Model<typename Of<A>::type>& m, const char* after) {
  typedef Of<A> O;
  typedef typename O::type T;
  for (int d = 0; d < O::rank; ++d)
    SIM_CHECK(O::size(a, d) == m.n.v[d], "wrong-size", "the size %d is %ld instead of %ld after %s", d, (long)O::size(a, d), (long)m.n.v[d], after);
  bool ok = true;
  return sut("an access", [&] {
    each(O::rank, m.n, [&](const Ix& i) {
      const T x = O::at(a, i);
      Ix j = i;
      if (O::square && O::rank == 2) { const I lo = i.v[0] < i.v[1] ? i.v[0] : i.v[1], hi = i.v[0] + i.v[1] - lo; j.v[0] = hi; j.v[1] = lo; }
      const I k = flat(O::rank, j);
      Host h;
      if (m.set[(size_t)k])
        SIM_CHECK(x == m.value[(size_t)k], "value-lost", "an element changed during %s", after);
      else
        SIM_CHECK(Value<T>::fresh(x), "garbage", "an element (%ld, %ld, %ld, %ld) that nobody has set holds garbage after %s", (long)i.v[0], (long)i.v[1], (long)i.v[2], (long)i.v[3], after);
    });
  }) && ok;
}
template <typename A> void run() {
  typedef Of<A> O;
  typedef typename O::type T;
  const I max = O::rank == 1 ? kSide - 1 : O::rank == 2 ? 7 : O::rank == 3 ? 4 : 3;
  Holder<A> h[2];
  Model<T> m[2];
  g_side = !t_ctx.large ? kSide : O::rank == 1 ? 2000 : O::rank == 2 ? 100 : O::rank == 3 ? 24 : kSide;
  const size_t volume_ = (size_t)volume(O::rank);
  ev("class", typeid(A).name());
  for (int s = 0; s < 2; ++s) {
    m[s].value.assign(volume_, T());
    m[s].set.assign(volume_, 0);
    m[s].n = drawSizes<A>(max);
    const int how = (int)pick(O::makers);
    const I al = (I)16 << pick(4);
    h[s].raw();
    ev("make", how, m[s].n.v[0], m[s].n.v[1], m[s].n.v[2]);
    if (!sut("construction", [&] { O::make(h[s].p, m[s].n, how, al); })) return;
    if (!check(*h[s], m[s], "the construction")) return;
  }
  const int nb = 1 + (int)pick(8);
  uint64_t serial = 1;
  for (int step = 0; step < nb; ++step) {
    const int s = (int)pick(2);
    A& a = *h[s];
    const char* what = "";
    switch (pick(O::grows ? 8 : 5)) {
      case 5:
      case 6: {
        const Ix n = drawSizes<A>(max);
        what = "Resize";
        ev(what, s, n.v[0], n.v[1], n.v[2]);
        if (!sut(what, [&] { O::Resize(a, n); })) return;
        // what is outside of the new sizes is forgotten
        std::vector<char> kept(volume_, 0);
        Ix both = n;
        for (int d = 0; d < O::rank; ++d) if (m[s].n.v[d] < both.v[d]) both.v[d] = m[s].n.v[d];
        each(O::rank, both, [&](const Ix& i) { kept[(size_t)flat(O::rank, i)] = m[s].set[(size_t)flat(O::rank, i)]; });
        m[s].set = kept;
        m[s].n = n;
        nontrivial();
        break;
      }
      case 7: {
        const Ix n = drawSizes<A>(kSide - 1);
        what = "Reserve";
        ev(what, s, n.v[0], n.v[1], n.v[2]);
        if (!sut(what, [&] { O::Reserve(a, n); })) return;
        break;
      }
      case 3: {
        what = "a copy";
        ev(what, s);
        if (!sut(what, [&] { a = *h[1 - s]; })) return;
        m[s] = m[1 - s];
        break;
      }
      case 4: {
        what = "the construction of a copy";
        ev(what, s);
        if (!h[s].destroy("destruction")) return;
        h[s].raw();
        if (!sut(what, [&] { new (h[s].p) A{*h[1 - s]}; })) return;
        m[s] = m[1 - s];
        break;
      }
      default: {
        // one element in two is set
        what = "writes";
        ev(what, s);
        const uint64_t every = 1 + pick(4);
        uint64_t k = 0;
        if (!sut(what, [&] {
              each(O::rank, m[s].n, [&](const Ix& i) {
                if (++k % every != 0) return;
                if (O::square && i.v[1] > i.v[0]) return;
                const T x = Value<T>::make(serial++);
                O::at(a, i) = x;
                Host host;
                m[s].value[(size_t)flat(O::rank, i)] = x;
                m[s].set[(size_t)flat(O::rank, i)] = 1;
              });
            })) return;
        nontrivial();
        break;
      }
    }
    for (int k = 0; k < 2; ++k)
      if (!check(*h[k], m[k], what)) return;
  }
  for (int s = 0; s < 2; ++s)
    if (!h[s].destroy("destruction")) return;
  checkAllReleased();
}
template <typename T> void runType() {
  switch (pick(12)) {
    case 0: run<il::Array<T>>(); break;
    case 1: run<il::SmallArray<T, 4>>(); break;
    case 2: run<il::Array2D<T>>(); break;
    case 3: run<il::Array2C<T>>(); break;
    case 4: run<il::Array3D<T>>(); break;
    case 5: run<il::Array3C<T>>(); break;
    case 6: run<il::Array4D<T>>(); break;
    case 7: run<il::Array4C<T>>(); break;
    case 8: run<il::LowerArray2D<T>>(); break;
    case 9: run<il::UpperArray2D<T>>(); break;
    default:
      switch (pick(6)) {
        case 0: run<il::StaticArray<T, 5>>(); break;
        case 1: run<il::StaticArray2D<T, 3, 4>>(); break;
        case 2: run<il::StaticArray2C<T, 3, 2>>(); break;
        case 3: run<il::StaticArray3D<T, 3, 2, 4>>(); break;
        case 4: run<il::StaticArray4D<T, 2, 3, 2, 3>>(); break;
        default: run<il::StaticArray<T, 1>>(); break;
      }
  }
}
}  // namespace

void world_fresh() {
  drawMemory(false);
  switch (pick(9)) {
    case 0: runType<double>(); break;
    case 1: runType<int>(); break;
    case 2: runType<float>(); break;
    case 3: runType<il::int_t>(); break;
    case 4: runType<unsigned short>(); break;
    case 5: runType<std::complex<double>>(); break;
    case 6: runType<std::complex<float>>(); break;
    case 7: runType<signed char>(); break;
    default: runType<unsigned long long>(); break;
  }
}
