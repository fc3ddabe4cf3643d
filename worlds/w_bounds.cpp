// Accesses outside of objects in a debug build (C30).
//
// Every run makes objects, does accesses at the edges of them, which must be
// accepted, and accesses outside of them (of any distance, into spare capacity,
// into neighbours), each of which must stop the process before any memory is
// touched: AddressSanitizer and the answer of the guarded call judge.
#include <climits>
#include <functional>
#include <initializer_list>
#include <memory>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2CView.h>
#include <il/Array2D.h>
#include <il/Array2DView.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/container/3d/Array3DView.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/BandArray2C.h>
#include <il/Deque.h>
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/LowerArray2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/String.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
#include <il/blas.h>
#include <il/norm.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>

#include "seq.h"

using namespace seq;

namespace {
const void* volatile g_sink;
template <typename T> void sink(const T& x) { g_sink = &x; }

// An access: its name and what it does.
struct Access { const char* what; std::function<void()> f; };
struct List {
  std::vector<Access> v;
  template <typename F> void add(const char* what, F f) { v.push_back(Access{what, std::function<void()>(f)}); }
};
const char* g_object = "";

template <typename F> bool built(F f) {
  note("object: %s", g_object);
  return sut("construction", f);
}
// good: accesses inside.  bad: accesses outside.
bool judge(const List& good, const List& bad) {
  const int ng = good.v.empty() ? 0 : (int)pick(3), nb = bad.v.empty() ? 0 : 1 + (int)pick(3);
  for (int i = 0; i < ng; ++i) {
    const Access& a = good.v[pick(good.v.size())];
    ev("inside", g_object, a.what);
    const uint64_t failed = g_astats.failed;
    if (guarded(a.f) == End::Died) {
      SIM_CHECK(g_astats.failed != failed, "refused", "%s of %s stopped the process although it is inside the object", a.what, g_object);
      t_ctx.over = true;
      return false;
    }
  }
  for (int i = 0; i < nb; ++i) {
    const Access& a = bad.v[pick(bad.v.size())];
    ev("outside", g_object, a.what);
    note("outside: %s of %s", a.what, g_object);
    const uint64_t failed = g_astats.failed;
    SIM_CHECK(guarded(a.f) == End::Died, "accepted", "%s of %s was accepted in a debug build although it is outside of the object", a.what, g_object);
    if (g_astats.failed != failed) { t_ctx.over = true; return false; }
    fault("access-outside");
    nontrivial();
  }
  return true;
}

// What gives a reading access.
template <typename A> struct Reading { typedef A type; };
template <typename T> struct Reading<il::ArrayEdit<T>> { typedef il::ArrayView<T> type; };
template <typename T> struct Reading<il::Array2DEdit<T>> { typedef il::Array2DView<T> type; };
template <typename T> struct Reading<il::Array2CEdit<T>> { typedef il::Array2CView<T> type; };
template <typename T> struct Reading<il::Array3DEdit<T>> { typedef il::Array3DView<T> type; };
template <typename A> const typename Reading<A>::type& reading(const A& a) { return a; }
// The last element, for those which can have one.
template <typename A> void last(const A& a) { sink(reading(a).back()); }
template <typename A> void Last(A& a) { sink(a.Back()); }
template <typename T> void last(const il::StaticArray<T, 0>&) { il::abort(); }
template <typename T> void Last(il::StaticArray<T, 0>&) { il::abort(); }

// An index outside [0, n), n <= cap.
il::int_t outside(il::int_t n, il::int_t cap = -1) {
  if (cap < n) cap = n;
  switch (pick(12)) {
    case 0: return n;
    case 1: return -1;
    case 2: return n + (il::int_t)pick(4);
    case 3: return -1 - (il::int_t)pick((uint64_t)n + 2);
    case 4: return n + (il::int_t)pick((uint64_t)(cap - n) + 1);
    case 5: return LLONG_MAX - (il::int_t)pick(3);
    case 6: return LLONG_MIN + (il::int_t)pick((uint64_t)n + 1);
    case 7: return ((il::int_t)1 << 32) + (il::int_t)pick((uint64_t)n + 1);
    case 8: return -((il::int_t)1 << 32) + (il::int_t)pick((uint64_t)n + 1);
    case 9: return ((il::int_t)1 << 61) + (il::int_t)pick((uint64_t)n + 1);
    case 10: return ((il::int_t)1 << 62) + (il::int_t)pick((uint64_t)n + 1);
    default: return ((il::int_t)1 << 31) + (il::int_t)pick((uint64_t)n + 1);
  }
}
il::int_t inside(il::int_t n) { return pick(2) ? (pick(2) ? n - 1 : 0) : (il::int_t)pick((uint64_t)n); }
il::int_t negative() {
  switch (pick(4)) {
    case 0: return -1;
    case 1: return -(il::int_t)(2 + pick(30));
    case 2: return LLONG_MIN;
    default: return -((il::int_t)1 << 61) + (il::int_t)pick(8);
  }
}
il::Range goodRange(il::int_t n) {
  const il::int_t b = (il::int_t)pick((uint64_t)n);
  return il::Range{b, b + (il::int_t)pick((uint64_t)(n - b) + 1)};
}
il::Range badRange(il::int_t n, il::int_t cap) {
  switch (n == 0 ? 1 : pick(4)) {
    case 0: { il::int_t b = outside(n, cap); if (b > 0) b = -1; return il::Range{b, (il::int_t)pick((uint64_t)n + 1)}; }
    case 1: { il::int_t e = outside(n, cap); if (e <= n) e = n + 1; return il::Range{n > 0 ? (il::int_t)pick((uint64_t)n) : 0, e}; }
    case 2: { const il::int_t b = n; return il::Range{b, b + 1 + (il::int_t)pick(5)}; }
    default: {
      if (n < 2) return il::Range{-1, n};
      const il::int_t b = 1 + (il::int_t)pick((uint64_t)n - 1);
      return il::Range{b, (il::int_t)pick((uint64_t)b)};
    }
  }
}
il::int_t small() { return pick(5) == 4 ? 0 : 1 + (il::int_t)pick(6); }

// -------------------------------------------------------------- one dimension
template <typename A>
void oneD(A& a, il::int_t n, il::int_t cap, List& good, List& bad) {
  const il::int_t o = outside(n, cap), o2 = outside(n, cap);
  bad.add("reading an element", [&a, o] { sink(reading(a)[o]); });
  bad.add("an element", [&a, o2] { sink(a[o2]); });
  if (n > 0) {
    const il::int_t i = inside(n);
    good.add("an element", [&a, i] { sink(reading(a)[i]); sink(a[i]); });
    good.add("the last element", [&a] { last(a); });
    const il::Range r = goodRange(n);
    good.add("a range", [&a, r] { sink(reading(a).view(r)); });
  } else
    bad.add("the last element", [&a] { last(a); });
  const il::Range r = badRange(n, cap);
  bad.add("a range", [&a, r] { sink(reading(a).view(r)); });
}
template <typename A>
void oneDWrite(A& a, il::int_t n, il::int_t cap, List& good, List& bad) {
  if (n > 0) {
    good.add("the last element", [&a] { Last(a); });
    const il::Range r = goodRange(n);
    good.add("an editable range", [&a, r] { sink(a.Edit(r)); });
  } else
    bad.add("the last element", [&a] { Last(a); });
  const il::Range r = badRange(n, cap);
  bad.add("an editable range", [&a, r] { sink(a.Edit(r)); });
}

template <typename T>
bool array() {
  g_object = "an Array";
  const il::int_t n0 = small() + (il::int_t)pick(3), n = (il::int_t)pick((uint64_t)n0 + 3);
  Holder<il::Array<T>> h;
  h.raw();
  const int how = (int)pick(3);
  const il::int_t x = negative();
  il::int_t cap = 0;
  if (!built([&] {
        if (how == 0) new (h.p) il::Array<T>{n0};
        else if (how == 1) new (h.p) il::Array<T>{n0, T{}};
        else { new (h.p) il::Array<T>{}; (*h).Reserve(n0); }
        (*h).Resize(n);
        cap = (*h).capacity();
      })) return false;
  il::Array<T>& a = *h;
  List good, bad;
  oneD(a, n, cap, good, bad);
  oneDWrite(a, n, cap, good, bad);
  // An access that stops the process does not destroy its temporaries.
  const std::shared_ptr<T> v{new T{}};
  bad.add("a negative size", [&a, x] { a.Resize(x); });
  bad.add("a negative size with a value", [&a, x, v] { a.Resize(x, *v); });
  bad.add("a negative capacity", [&a, x] { a.Reserve(x); });
  bad.add("a construction with a negative size", [x] { il::Array<T> b{x}; sink(b); });
  bad.add("a construction with a negative size and a value", [x, v] { il::Array<T> b{x, *v}; sink(b); });
  return judge(good, bad) && h.destroy("destruction");
}
template <typename T, int k>
bool smallArray() {
  g_object = "a SmallArray";
  const il::int_t n0 = (il::int_t)pick(k + 3), n = (il::int_t)pick(k + 3);
  Holder<il::SmallArray<T, k>> h;
  h.raw();
  const il::int_t x = negative();
  il::int_t cap = 0;
  if (!built([&] {
        new (h.p) il::SmallArray<T, k>{n0};
        (*h).Resize(n);
        cap = (*h).capacity();
      })) return false;
  il::SmallArray<T, k>& a = *h;
  List good, bad;
  oneD(a, n, cap, good, bad);
  oneDWrite(a, n, cap, good, bad);
  // An access that stops the process does not destroy its temporaries.
  const std::shared_ptr<T> v{new T{}};
  bad.add("a negative size", [&a, x] { a.Resize(x); });
  bad.add("a negative capacity", [&a, x] { a.Reserve(x); });
  bad.add("a construction with a negative size", [x] { il::SmallArray<T, k> b{x}; sink(b); });
  bad.add("a construction with a negative size and a value", [x, v] { il::SmallArray<T, k> b{x, *v}; sink(b); });
  return judge(good, bad) && h.destroy("destruction");
}
template <typename T, int n>
bool staticArray() {
  g_object = "a StaticArray";
  Holder<il::StaticArray<T, n>> h;
  h.raw();
  if (!built([&] { new (h.p) il::StaticArray<T, n>{}; })) return false;
  List good, bad;
  oneD(*h, n, n, good, bad);
  oneDWrite(*h, n, n, good, bad);
  return judge(good, bad) && h.destroy("destruction");
}
template <typename T>
bool view1D() {
  const il::int_t n = 1 + small(), k = (il::int_t)pick((uint64_t)n), m = (il::int_t)pick((uint64_t)(n - k) + 1), x = negative();
  Holder<il::Array<T>> h;
  h.raw();
  if (!built([&] { new (h.p) il::Array<T>{n, T{}}; })) return false;
  List good, bad;
  if (pick(2)) {
    g_object = "an ArrayView";
    il::ArrayView<T> v{};
    if (!sut("view", [&] { v = (*h).view(il::Range{k, k + m}); })) return false;
    oneD(v, m, n - k, good, bad);
    const T* p = (*h).data();
    bad.add("a negative size", [x, p] { il::ArrayView<T> w{p, x}; sink(w); });
    return judge(good, bad) && h.destroy("destruction");
  }
  g_object = "an ArrayEdit";
  il::ArrayEdit<T> v{};
  if (!sut("Edit", [&] { v = (*h).Edit(il::Range{k, k + m}); })) return false;
  oneD(v, m, n - k, good, bad);
  oneDWrite(v, m, n - k, good, bad);
  return judge(good, bad) && h.destroy("destruction");
}

// ------------------------------------------------------- several dimensions
template <int d> struct Idx {
  il::int_t i[d];
  bool one_outside = false;
};
template <int d>
bool insideOf(const il::int_t* n) { for (int k = 0; k < d; ++k) if (n[k] <= 0) return false; return true; }
template <int d>
Idx<d> idx(const il::int_t* n, const il::int_t* cap, bool out) {
  Idx<d> x;
  const int bad = (int)pick(d);
  for (int k = 0; k < d; ++k) {
    const bool o = out && (k == bad || n[k] <= 0 || one(5));
    x.i[k] = n[k] <= 0 && !o ? 0 : o ? outside(n[k], cap[k]) : inside(n[k]);
  }
  return x;
}
template <typename A> auto el(A& a, const Idx<2>& x) -> decltype(a(0, 0)) { return a(x.i[0], x.i[1]); }
template <typename A> auto el(A& a, const Idx<3>& x) -> decltype(a(0, 0, 0)) { return a(x.i[0], x.i[1], x.i[2]); }
template <typename A> auto el(A& a, const Idx<4>& x) -> decltype(a(0, 0, 0, 0)) { return a(x.i[0], x.i[1], x.i[2], x.i[3]); }

template <int d, typename A>
void several(A& a, const il::int_t* n, const il::int_t* cap, List& good, List& bad) {
  const Idx<d> x = idx<d>(n, cap, true), y = idx<d>(n, cap, true);
  bad.add("reading an element", [&a, x] { sink(el(reading(a), x)); });
  bad.add("an element", [&a, y] { sink(el(a, y)); });
  if (insideOf<d>(n)) {
    const Idx<d> z = idx<d>(n, cap, false);
    good.add("an element", [&a, z] { sink(el(reading(a), z)); sink(el(a, z)); });
  }
  const il::int_t k = outside(d), l = inside(d);
  bad.add("the size of a dimension", [&a, k] { sink(a.size(k)); });
  good.add("the size of a dimension", [&a, l] { sink(a.size(l)); });
}
template <typename A>
void capacities(A& a, int d, List& good, List& bad) {
  const il::int_t k = outside(d), l = inside(d);
  bad.add("the capacity of a dimension", [&a, k] { sink(a.capacity(k)); });
  good.add("the capacity of a dimension", [&a, l] { sink(a.capacity(l)); });
}
template <typename A>
void strides(A& a, int d, List& good, List& bad) {
  const il::int_t k = outside(d), l = inside(d);
  bad.add("the stride of a dimension", [&a, k] { sink(a.stride(k)); });
  good.add("the stride of a dimension", [&a, l] { sink(a.stride(l)); });
}
template <typename A> A* make(void* p, const Idx<2>& s) { return new (p) A{s.i[0], s.i[1]}; }
template <typename A> A* make(void* p, const Idx<3>& s) { return new (p) A{s.i[0], s.i[1], s.i[2]}; }
template <typename A> A* make(void* p, const Idx<4>& s) { return new (p) A{s.i[0], s.i[1], s.i[2], s.i[3]}; }
template <typename A, typename T> A* make(void* p, const Idx<2>& s, const T& x) { return new (p) A{s.i[0], s.i[1], x}; }
template <typename A, typename T> A* make(void* p, const Idx<3>& s, const T& x) { return new (p) A{s.i[0], s.i[1], s.i[2], x}; }
template <typename A, typename T> A* make(void* p, const Idx<4>& s, const T& x) { return new (p) A{s.i[0], s.i[1], s.i[2], s.i[3], x}; }
template <typename A> void resize(A& a, const Idx<2>& s) { a.Resize(s.i[0], s.i[1]); }
template <typename A> void resize(A& a, const Idx<3>& s) { a.Resize(s.i[0], s.i[1], s.i[2]); }
template <typename A> void resize(A& a, const Idx<4>& s) { a.Resize(s.i[0], s.i[1], s.i[2], s.i[3]); }
template <typename A> void reserve(A& a, const Idx<2>& s) { a.Reserve(s.i[0], s.i[1]); }
template <typename A> void reserve(A& a, const Idx<3>& s) { a.Reserve(s.i[0], s.i[1], s.i[2]); }
template <typename A> void reserve(A& a, const Idx<4>& s) { a.Reserve(s.i[0], s.i[1], s.i[2], s.i[3]); }

template <typename T> void parts(il::Array2D<T>& a, const il::int_t* n, const il::int_t* cap, List& good, List& bad) {
  strides(a, 2, good, bad);
  const il::int_t c = outside(n[1], cap[1]), c2 = outside(n[1], cap[1]);
  bad.add("the data of a column", [&a, c] { const il::Array2D<T>& b = a; sink(*b.data(c)); });
  bad.add("the data of a column", [&a, c2] { sink(*a.Data(c2)); });
  const bool all = n[0] > 0 && n[1] > 0;
  il::Range g0{0, 0}, g1{0, 0};
  il::int_t i = 0;
  if (all) {
    g0 = goodRange(n[0]); g1 = goodRange(n[1]); i = inside(n[1]);
    good.add("a part", [&a, g0, g1] { const il::Array2D<T>& b = a; sink(b.view(g0, g1)); sink(a.Edit(g0, g1)); });
    good.add("a part of a column", [&a, g0, i] { const il::Array2D<T>& b = a; sink(b.view(g0, i)); sink(a.Edit(g0, i)); });
    good.add("the data of a column", [&a, i] { const il::Array2D<T>& b = a; sink(b.data(i)); sink(a.Data(i)); });
    const il::Range b0 = badRange(n[0], cap[0]), b1 = badRange(n[1], cap[1]);
    const il::int_t j = outside(n[1], cap[1]);
    const int w = (int)pick(3);
    bad.add("a part", [=, &a] { const il::Array2D<T>& b = a; sink(b.view(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
    bad.add("an editable part", [=, &a] { sink(a.Edit(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
    bad.add("a part of a column", [=, &a] { const il::Array2D<T>& b = a; sink(b.view(w == 0 ? g0 : b0, w == 1 ? i : j)); });
    bad.add("an editable part of a column", [=, &a] { sink(a.Edit(w == 0 ? g0 : b0, w == 1 ? i : j)); });
  }
}
template <typename T> void parts(il::Array2C<T>& a, const il::int_t* n, const il::int_t* cap, List& good, List& bad) {
  strides(a, 2, good, bad);
  const il::int_t c = outside(n[0], cap[0]), c2 = outside(n[0], cap[0]);
  bad.add("the data of a row", [&a, c] { const il::Array2C<T>& b = a; sink(*b.data(c)); });
  bad.add("the data of a row", [&a, c2] { sink(*a.Data(c2)); });
  if (n[0] > 0 && n[1] > 0) {
    const il::Range g0 = goodRange(n[0]), g1 = goodRange(n[1]);
    const il::int_t i = inside(n[0]);
    good.add("a part", [&a, g0, g1] { const il::Array2C<T>& b = a; sink(b.view(g0, g1)); });
    good.add("a part of a row", [&a, g1, i] { const il::Array2C<T>& b = a; sink(b.view(i, g1)); });
    good.add("the data of a row", [&a, i] { const il::Array2C<T>& b = a; sink(b.data(i)); sink(a.Data(i)); });
    const il::Range b0 = badRange(n[0], cap[0]), b1 = badRange(n[1], cap[1]);
    const il::int_t j = outside(n[0], cap[0]);
    const int w = (int)pick(3);
    bad.add("a part", [=, &a] { const il::Array2C<T>& b = a; sink(b.view(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
    bad.add("a part of a row", [=, &a] { const il::Array2C<T>& b = a; sink(b.view(w == 0 ? i : j, w == 1 ? g1 : b1)); });
  }
}
template <typename T> void parts(il::Array3D<T>& a, const il::int_t*, const il::int_t*, List& good, List& bad) { strides(a, 3, good, bad); }
template <typename T> void parts(il::Array3C<T>& a, const il::int_t* n, const il::int_t* cap, List& good, List& bad) {
  strides(a, 3, good, bad);
  unused(n, cap);
}
template <typename T> void parts(il::Array4D<T>&, const il::int_t*, const il::int_t*, List&, List&) {}
template <typename T> void parts(il::Array4C<T>&, const il::int_t*, const il::int_t*, List&, List&) {}

template <int d, typename A, typename T>
bool arrayND(const char* name) {
  g_object = name;
  Idx<d> s0, s1, r;
  for (int k = 0; k < d; ++k) {
    s0.i[k] = 1 + (il::int_t)pick(4);
    s1.i[k] = pick(3) ? (il::int_t)pick((uint64_t)s0.i[k] + 1) : (il::int_t)pick(5);
    r.i[k] = (il::int_t)pick(4);
  }
  r.i[pick(d)] = negative();
  const int how = (int)pick(3);
  il::int_t cap[d] = {};
  Holder<A> h;
  h.raw();
  if (!built([&] {
        if (how) make<A>(h.p, s0, T{});
        else make<A>(h.p, s0);
        if (how != 1) resize(*h, s1);
        for (int k = 0; k < d; ++k) cap[k] = (*h).capacity(k);
      })) return false;
  A& a = *h;
  List good, bad;
  const Idx<d>& s = how != 1 ? s1 : s0;
  several<d>(a, s.i, cap, good, bad);
  capacities(a, d, good, bad);
  parts(a, s.i, cap, good, bad);
  // An access that stops the process does not destroy its temporaries.
  const std::shared_ptr<T> v{new T{}};
  bad.add("a negative size", [&a, r] { resize(a, r); });
  bad.add("a negative capacity", [&a, r] { reserve(a, r); });
  alignas(16) static char room[sizeof(A)];
  bad.add("a construction with a negative size", [r] { make<A>(room, r); });
  bad.add("a construction with a negative size and a value", [r, v] { make<A>(room, r, *v); });
  return judge(good, bad) && h.destroy("destruction");
}
template <int d, typename A>
bool staticND(const char* name, std::initializer_list<il::int_t> sizes) {
  g_object = name;
  il::int_t n[d];
  int k = 0;
  for (il::int_t s : sizes) n[k++] = s;
  Holder<A> h;
  h.raw();
  if (!built([&] { new (h.p) A{}; })) return false;
  List good, bad;
  several<d>(*h, n, n, good, bad);
  return judge(good, bad) && h.destroy("destruction");
}
// Views of a part of a larger array.
template <typename T>
bool view2D() {
  const il::int_t m0 = 1 + (il::int_t)pick(5), m1 = 1 + (il::int_t)pick(5);
  const il::Range r0 = goodRange(m0), r1 = goodRange(m1);
  const il::int_t n[2] = {r0.end - r0.begin, r1.end - r1.begin};
  const il::int_t cap[2] = {m0, m1};
  const bool all = n[0] > 0 && n[1] > 0;
  il::Range g0{0, 0}, g1{0, 0}, b0 = badRange(n[0], m0), b1 = badRange(n[1], m1);
  if (all) { g0 = goodRange(n[0]); g1 = goodRange(n[1]); }
  int w = (int)pick(3);
  List good, bad;
  const il::int_t x = negative();
  if (pick(2)) {
    Holder<il::Array2D<T>> h;
    h.raw();
    if (!built([&] { new (h.p) il::Array2D<T>{m0, m1, T{}}; })) return false;
    const T* p = (*h).data();
    if (pick(2)) {
      g_object = "an Array2DView";
      il::Array2DView<T> v{};
      if (!sut("view", [&] { v = (*h).view(r0, r1); })) return false;
      several<2>(v, n, cap, good, bad);
      strides(v, 2, good, bad);
      if (all) {
        bad.add("a part", [=, &v] { sink(v.view(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
        good.add("a part", [=, &v] { sink(v.view(g0, g1)); });
      }
      bad.add("a construction with a negative size", [=] { il::Array2DView<T> u{p, w == 0 ? m0 : x, w == 1 ? m1 : x, m0}; sink(u); });
      return judge(good, bad) && h.destroy("destruction");
    }
    g_object = "an Array2DEdit";
    il::Array2DEdit<T> v{};
    if (!sut("Edit", [&] { v = (*h).Edit(r0, r1); })) return false;
    several<2>(v, n, cap, good, bad);
    strides(v, 2, good, bad);
    if (all) {
      bad.add("a part", [=, &v] { sink(v.view(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
      bad.add("an editable part", [=, &v] { sink(v.Edit(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
      good.add("a part", [=, &v] { sink(v.view(g0, g1)); sink(v.Edit(g0, g1)); });
    }
    return judge(good, bad) && h.destroy("destruction");
  }
  Holder<il::Array2C<T>> h;
  h.raw();
  if (!built([&] { new (h.p) il::Array2C<T>{m0, m1, T{}}; })) return false;
  const T* p = (*h).data();
  if (pick(2)) {
    g_object = "an Array2CView";
    il::Array2CView<T> v{};
    if (!sut("view", [&] { v = (*h).view(r0, r1); })) return false;
    several<2>(v, n, cap, good, bad);
    strides(v, 2, good, bad);
    bad.add("a construction with a negative size", [=] { il::Array2CView<T> u{p, w == 0 ? m0 : x, w == 1 ? m1 : x, m1}; sink(u); });
    return judge(good, bad) && h.destroy("destruction");
  }
  g_object = "an Array2CEdit";
  il::Array2CEdit<T> v{};
  if (!sut("Edit", [&] { v = (*h).Edit().Edit(r0, r1); })) return false;
  several<2>(v, n, cap, good, bad);
  strides(v, 2, good, bad);
  if (all) {
    bad.add("an editable part", [=, &v] { sink(v.Edit(w == 0 ? g0 : b0, w == 1 ? g1 : b1)); });
    good.add("a part", [=, &v] { sink(v.Edit(g0, g1)); });
  }
  return judge(good, bad) && h.destroy("destruction");
}
template <typename T>
bool view3D() {
  il::int_t n[3], cap[3];
  for (int k = 0; k < 3; ++k) { cap[k] = 1 + (il::int_t)pick(4); n[k] = (il::int_t)pick((uint64_t)cap[k] + 1); }
  Holder<il::Array3D<T>> h;
  h.raw();
  if (!built([&] { new (h.p) il::Array3D<T>{cap[0], cap[1], cap[2], T{}}; })) return false;
  T* p = (*h).Data();
  const il::int_t x = negative();
  const int w = (int)pick(3);
  List good, bad;
  if (pick(2)) {
    g_object = "an Array3DView";
    il::Array3DView<T> v{};
    if (!sut("view", [&] { v = il::Array3DView<T>{p, n[0], n[1], n[2], cap[0], cap[1]}; })) return false;
    several<3>(v, n, cap, good, bad);
    strides(v, 2, good, bad);
    bad.add("a construction with a negative size", [=] { il::Array3DView<T> u{p, w == 0 ? x : 1, w == 1 ? x : 1, w == 2 ? x : 1, 1, 1}; sink(u); });
    return judge(good, bad) && h.destroy("destruction");
  }
  g_object = "an Array3DEdit";
  il::Array3DEdit<T> v{};
  if (!sut("view", [&] { v = il::Array3DEdit<T>{p, n[0], n[1], n[2], cap[0], cap[1]}; })) return false;
  several<3>(v, n, cap, good, bad);
  strides(v, 2, good, bad);
  return judge(good, bad) && h.destroy("destruction");
}

// --------------------------------------------------------- matrices of a shape
template <typename A>
bool triangle(const char* name, bool lower) {
  g_object = name;
  const il::int_t n = small(), x = negative();
  Holder<A> h;
  h.raw();
  if (!built([&] { new (h.p) A{n}; })) return false;
  A& a = *h;
  List good, bad;
  const il::int_t nn[2] = {n, n};
  const Idx<2> y = idx<2>(nn, nn, true), z = idx<2>(nn, nn, true);
  bad.add("reading an element", [&a, y] { const A& c = a; sink(c(y.i[0], y.i[1])); });
  bad.add("an element", [&a, z] { sink(a(z.i[0], z.i[1])); });
  if (n > 0) {
    const il::int_t i = inside(n), j = inside(n), lo = i < j ? i : j, hi = i < j ? j : i;
    good.add("an element", [=, &a] { const A& c = a; sink(lower ? c(hi, lo) : c(lo, hi)); sink(lower ? a(hi, lo) : a(lo, hi)); });
    if (lo < hi) {
      bad.add("reading an element of the other triangle", [=, &a] { const A& c = a; sink(lower ? c(lo, hi) : c(hi, lo)); });
      bad.add("an element of the other triangle", [=, &a] { sink(lower ? a(lo, hi) : a(hi, lo)); });
    }
  }
  bad.add("a construction with a negative size", [x] { A b{x}; sink(b); });
  return judge(good, bad) && h.destroy("destruction");
}
bool band() {
  typedef il::BandArray2C<double> A;
  g_object = "a BandArray2C";
  const il::int_t n0 = small(), n1 = small(), l = (il::int_t)pick(4), r = (il::int_t)pick(4), x = negative();
  Holder<A> h;
  h.raw();
  if (!built([&] { new (h.p) A{n0, n1, l, r}; })) return false;
  A& a = *h;
  List good, bad;
  const il::int_t i = n0 > 0 ? inside(n0) : 0, k = -l + inside(l + r + 1), o = outside(n0), far = outside(l + r + 1) - l;
  bad.add("a row", [=, &a] { sink(a(o, k)); });
  bad.add("reading a row", [=, &a] { const A& c = a; sink(c(o, k)); });
  if (n0 > 0) {
    if (far < -l || far > r) {
      bad.add("an element out of the band", [=, &a] { sink(a(i, far)); });
      bad.add("reading an element out of the band", [=, &a] { const A& c = a; sink(c(i, far)); });
    }
    if (i + k >= 0 && i + k < n1) good.add("an element", [=, &a] { const A& c = a; sink(c(i, k)); sink(a(i, k)); });
  }
  const il::int_t d = outside(2), e = inside(2);
  bad.add("the size of a dimension", [&a, d] { sink(a.size(d)); });
  good.add("the size of a dimension", [&a, e] { sink(a.size(e)); });
  const int w = (int)pick(4);
  bad.add("a construction with a negative size", [=] { A b{w == 0 ? x : n0, w == 1 ? x : n1, w == 2 ? x : l, w == 3 ? x : r}; sink(b); });
  return judge(good, bad) && h.destroy("destruction");
}
bool tridiagonal() {
  typedef il::TriDiagonal<double> A;
  g_object = "a TriDiagonal";
  const il::int_t n = small(), x = negative();
  Holder<A> h;
  h.raw();
  if (!built([&] { new (h.p) A{n}; })) return false;
  A& a = *h;
  List good, bad;
  const il::int_t i = n > 0 ? inside(n) : 0, k = inside(3) - 1, o = outside(n), far = outside(3) - 1;
  bad.add("a row", [=, &a] { sink(a(o, k)); });
  bad.add("reading a row", [=, &a] { const A& c = a; sink(c(o, k)); });
  if (n > 0) {
    if (far < -1 || far > 1) {
      bad.add("an element out of the diagonals", [=, &a] { sink(a(i, far)); });
      bad.add("reading an element out of the diagonals", [=, &a] { const A& c = a; sink(c(i, far)); });
    }
    if (i + k >= 0 && i + k < n) good.add("an element", [=, &a] { const A& c = a; sink(c(i, k)); sink(a(i, k)); });
  }
  bad.add("a construction with a negative size", [x] { A b{x}; sink(b); });
  return judge(good, bad) && h.destroy("destruction");
}
bool sparse() {
  typedef il::SparseMatrixCSR<int, double> A;
  g_object = "a SparseMatrixCSR";
  const int n = 1 + (int)pick(4);
  std::vector<int> pos;  // one position at most by row
  for (int i = 0; i < n; ++i)
    for (int k = (int)pick(3); k > 0; --k) { pos.push_back(i); pos.push_back((int)pick((uint64_t)n)); }
  const int nb = (int)pos.size() / 2;
  const int* q = pos.data();
  Holder<A> h;
  h.raw();
  il::int_t nz = 0, row = 0;
  const il::int_t r = (il::int_t)pick((uint64_t)n);
  if (!built([&] {
        il::Array<il::StaticArray<int, 2>> p{nb};
        for (int k = 0; k < nb; ++k) { p[k][0] = q[2 * k]; p[k][1] = q[2 * k + 1]; }
        il::Array<int> index{};
        new (h.p) A{n, p, il::io, index};
        nz = (*h).nbNonZeros();
        row = (*h).row(r + 1) - (*h).row(r);
      })) return false;
  A& a = *h;
  List good, bad;
  const il::int_t o = outside(nz), o2 = outside(nz), o3 = outside(n), o4 = outside(row), o5 = outside(n + 1), o6 = outside(2);
  bad.add("reading a value", [=, &a] { const A& c = a; sink(c[o]); });
  bad.add("a value", [=, &a] { sink(a[o]); });
  bad.add("the value of an entry", [=, &a] { sink(a.element(o2)); });
  bad.add("the column of an entry", [=, &a] { sink(a.column(o2)); });
  bad.add("the beginning of a row", [=, &a] { sink(a.row(o5)); });
  bad.add("a row", [=, &a] { sink(a(o3, 0)); });
  bad.add("reading a row", [=, &a] { const A& c = a; sink(c(o3, 0)); });
  bad.add("an entry of a row", [=, &a] { sink(a(r, o4)); });
  bad.add("reading an entry of a row", [=, &a] { const A& c = a; sink(c(r, o4)); });
  bad.add("the size of a dimension", [=, &a] { sink(a.size(o6)); });
  if (nz > 0) {
    const il::int_t i = inside(nz);
    good.add("a value", [=, &a] { const A& c = a; sink(c[i]); sink(a[i]); sink(a.element(i)); sink(a.column(i)); });
  }
  if (row > 0) {
    const il::int_t i = inside(row);
    good.add("an entry of a row", [=, &a] { const A& c = a; sink(c(r, i)); sink(a(r, i)); });
  }
  const il::int_t i = inside(n + 1);
  good.add("the beginning of a row", [=, &a] { sink(a.row(i)); });
  // positions out of the matrix
  const int bi = (int)pick(2), w = (int)pick(3), out = (int)(pick(2) ? n + (int)pick(3) : -1 - (int)pick(3));
  bad.add("a construction with a position", [=] {
    il::Array<il::StaticArray<int, 2>> p{2};
    p[0][0] = p[0][1] = p[1][0] = p[1][1] = 0;
    p[bi][w == 1] = out;
    if (w == 2) p[bi][0] = p[bi][1] = out;
    il::Array<int> index{};
    A b{n, p, il::io, index};
    sink(b);
  });
  return judge(good, bad) && h.destroy("destruction");
}

// ------------------------------------------------------------------ the others
template <typename T>
bool deque() {
  typedef il::Deque<T> A;
  g_object = "an empty Deque";
  const il::int_t n = (il::int_t)pick(5), x = negative();
  const int rounds = (int)pick((uint64_t)n + 1), how = (int)pick(2);
  Holder<A> h;
  h.raw();
  if (!built([&] {
        if (how) new (h.p) A{n};
        else { new (h.p) A{}; (*h).Reserve(n); }
        for (int i = 0; i < rounds; ++i) (*h).PushBack(T{});
        for (int i = 0; i < rounds; ++i) { if (i % 2) (*h).PopFront(); else (*h).PopBack(); }
      })) return false;
  A& a = *h;
  List good, bad;
  bad.add("reading the front", [&a] { const A& c = a; sink(c.front()); });
  bad.add("the front", [&a] { sink(a.Front()); });
  bad.add("reading the back", [&a] { const A& c = a; sink(c.back()); });
  bad.add("the back", [&a] { sink(a.Back()); });
  bad.add("the removal of the front", [&a] { a.PopFront(); });
  bad.add("the removal of the back", [&a] { a.PopBack(); });
  bad.add("a negative capacity", [&a, x] { a.Reserve(x); });
  bad.add("a construction with a negative capacity", [x] { A b{x}; sink(b); });
  return judge(good, bad) && h.destroy("destruction");
}
bool map() {
  typedef il::Map<int, double> A;
  g_object = "a Map";
  const il::int_t n = (il::int_t)pick(8), r = (il::int_t)pick(2) * (il::int_t)pick(10), x = negative();
  Holder<A> h;
  h.raw();
  il::int_t m = 0;
  if (!built([&] {
        new (h.p) A{r};
        for (int i = 0; i < n; ++i) (*h).Set(3 * i, 0.5);
        m = (*h).nbBuckets();
      })) return false;
  A& a = *h;
  List good, bad;
  const int missing = 3 * (int)pick(10) + 1;
  const il::int_t o = outside(m), o2 = o < 0 ? o : -1;
  bad.add("the key of a place", [=, &a] { il::spot_t i{}; i.index = o; sink(a.key(i)); });
  bad.add("reading the value of a place", [=, &a] { const A& c = a; il::spot_t i{}; i.index = o; sink(c.value(i)); });
  bad.add("the value of a place", [=, &a] { il::spot_t i{}; i.index = o; sink(a.Value(i)); });
  bad.add("the key of a missing key", [=, &a] { sink(a.key(a.search(missing))); });
  bad.add("reading the value of a missing key", [=, &a] { const A& c = a; sink(c.value(a.search(missing))); });
  bad.add("the value of a missing key", [=, &a] { sink(a.Value(a.search(missing))); });
  bad.add("the removal of a missing key", [=, &a] { a.erase(a.search(missing)); });
  bad.add("the removal of a place", [=, &a] { il::spot_t i{}; i.index = o2; a.erase(i); });
  bad.add("a negative capacity", [=, &a] { a.Reserve(x); });
  bad.add("a construction with a negative capacity", [x] { A b{x}; sink(b); });
  if (n > 0) {
    const int k = 3 * (int)inside(n);
    good.add("the value of a key", [=, &a] { const il::spot_t i = a.search(k); sink(a.key(i)); sink(a.Value(i)); const A& c = a; sink(c.value(i)); });
  }
  return judge(good, bad) && h.destroy("destruction");
}
bool mapArray() {
  typedef il::MapArray<int, double> A;
  g_object = "a MapArray";
  const il::int_t n = (il::int_t)pick(8), x = negative();
  Holder<A> h;
  h.raw();
  il::int_t cap = 0;
  if (!built([&] {
        new (h.p) A{};
        for (int i = 0; i < n; ++i) (*h).Set(3 * i, 0.5);
        cap = (*h).capacity();
      })) return false;
  A& a = *h;
  List good, bad;
  const int missing = 3 * (int)pick(10) + 1;
  const il::int_t o = outside(n, cap);
  bad.add("the key of a place", [=, &a] { il::spot_t i{}; i.index = o; sink(a.key(i)); });
  bad.add("reading the value of a place", [=, &a] { const A& c = a; il::spot_t i{}; i.index = o; sink(c.value(i)); });
  bad.add("the value of a place", [=, &a] { il::spot_t i{}; i.index = o; sink(a.Value(i)); });
  bad.add("the key of a missing key", [=, &a] { sink(a.key(a.search(missing))); });
  bad.add("reading the value of a missing key", [=, &a] { const A& c = a; sink(c.value(a.search(missing))); });
  bad.add("the value of a missing key", [=, &a] { sink(a.Value(a.search(missing))); });
  bad.add("a construction with a negative capacity", [x] { A b{x}; sink(b); });
  if (n > 0) {
    const int k = 3 * (int)inside(n);
    good.add("the value of a key", [=, &a] { const il::spot_t i = a.search(k); sink(a.key(i)); sink(a.Value(i)); const A& c = a; sink(c.value(i)); });
  }
  return judge(good, bad) && h.destroy("destruction");
}
bool info() {
  typedef il::Info A;
  g_object = "an Info";
  const int n = (int)pick(3);
  Holder<A> h;
  h.raw();
  if (!built([&] {
        new (h.p) A{};
        if (n > 0) (*h).Set("n", 3);
        if (n > 1) { (*h).Set("x", 2.5); (*h).Set("s", "text that does not fit in the object"); }
      })) return false;
  A& a = *h;
  List good, bad;
  bad.add("the integer of a missing key", [&a] { sink(a.toInteger("missing")); });
  bad.add("the double of a missing key", [&a] { sink(a.toDouble("missing")); });
  bad.add("the string of a missing key", [&a] { sink(a.asCString("missing")); });
  bad.add("the integer at the place of a missing key", [&a] { sink(a.toInteger(a.search("missing"))); });
  bad.add("the double at the place of a missing key", [&a] { sink(a.toDouble(a.search("missing"))); });
  bad.add("the string at the place of a missing key", [&a] { sink(a.asCString(a.search("missing"))); });
  if (n > 0) {
    good.add("an integer", [&a] { sink(a.toInteger("n")); sink(a.toInteger(a.search("n"))); });
    bad.add("the double of an integer", [&a] { sink(a.toDouble("n")); });
    bad.add("the string of an integer", [&a] { sink(a.asCString("n")); });
  }
  if (n > 1) {
    good.add("a double", [&a] { sink(a.toDouble("x")); });
    good.add("a string", [&a] { sink(a.asCString("s")); });
    bad.add("the integer of a double", [&a] { sink(a.toInteger("x")); });
    bad.add("the double of a string", [&a] { sink(a.toDouble(a.search("s"))); });
  }
  return judge(good, bad) && h.destroy("destruction");
}
bool dynamic() {
  typedef il::Dynamic A;
  g_object = "a Dynamic";
  const int t = (int)pick(8);
  Holder<A> h;
  h.raw();
  if (!built([&] {
        switch (t) {
          case 0: new (h.p) A{}; break;
          case 1: new (h.p) A{true}; break;
          case 2: new (h.p) A{(il::int_t)17}; break;
          case 3: new (h.p) A{2.5}; break;
          case 4: new (h.p) A(il::String{"text"}); break;
          case 5: new (h.p) A(il::Array<il::Dynamic>{}); break;
          case 6: new (h.p) A(il::Map<il::String, il::Dynamic>{}); break;
          default: new (h.p) A(il::Array<double>{}); break;
        }
      })) return false;
  A& a = *h;
  List good, bad;
  (t == 1 ? good : bad).add("the boolean", [&a] { sink(a.to<bool>()); });
  (t == 2 ? good : bad).add("the integer", [&a] { sink(a.to<il::int_t>()); });
  (t == 3 ? good : bad).add("the double", [&a] { sink(a.to<double>()); });
  (t == 4 ? good : bad).add("the string", [&a] { const A& c = a; sink(c.as<il::String>()); });
  (t == 4 ? good : bad).add("the editable string", [&a] { sink(a.As<il::String>()); });
  (t == 5 ? good : bad).add("the array", [&a] { const A& c = a; sink(c.as<il::Array<il::Dynamic>>()); });
  (t == 5 ? good : bad).add("the editable array", [&a] { sink(a.As<il::Array<il::Dynamic>>()); });
  (t == 6 ? good : bad).add("the map", [&a] { const A& c = a; sink(c.as<il::Map<il::String, il::Dynamic>>()); });
  (t == 6 ? good : bad).add("the editable map", [&a] { sink(a.As<il::Map<il::String, il::Dynamic>>()); });
  (t == 7 ? good : bad).add("the array of doubles", [&a] { const A& c = a; sink(c.as<il::Array<double>>()); });
  (t == 2 ? good : bad).add("the editable integer", [&a] { sink(a.As<il::int_t>()); });
  return judge(good, bad) && h.destroy("destruction");
}
bool string() {
  typedef il::String A;
  const il::int_t n = (il::int_t)pick(pick(2) ? 8 : 40), r = (il::int_t)pick(2) * (il::int_t)pick(60), x = negative();
  char text[64];
  // two-byte characters, then one-byte ones
  const int wide = (int)pick((uint64_t)n / 2 + 1);
  for (int i = 0; i < n; ++i) text[i] = i < 2 * wide ? (i % 2 ? '\xa9' : '\xc3') : (char)('a' + i % 26);
  Holder<A> h;
  h.raw();
  il::int_t cap = 0;
  if (!built([&] {
        new (h.p) A(wide ? il::StringType::Utf8 : il::StringType::Ascii, text, n);
        if (r > 0) (*h).Reserve(r);
        cap = (*h).capacity();
      })) return false;
  A& a = *h;
  List good, bad;
  il::int_t i0 = (il::int_t)pick((uint64_t)n + 1), i1 = i0 + (il::int_t)pick((uint64_t)(n - i0) + 1);
  const il::int_t o = outside(n + 1, cap);
  const int w = (int)pick(3);
  const bool swap = i0 < i1;
  if (pick(2)) {
    g_object = "a String";
    bad.add("an insertion of a character", [=, &a] { a.Insert(o, 'x'); });
    bad.add("an insertion of characters", [=, &a] { a.Insert(o, 2, 'x'); });
    bad.add("an insertion of a literal", [=, &a] { a.Insert(o, "xy"); });
    bad.add("an insertion of a text", [=, &a] { a.Insert(o, il::StringType::Ascii, text, 3 < n ? 3 : n); });
    bad.add("an insertion of a view", [=, &a] { il::StringView v{"xy"}; a.Insert(o, v); });
    bad.add("an insertion of a negative number of characters", [=, &a] { a.Insert(0, x, 'x'); });
    bad.add("the addition of a negative number of characters", [=, &a] { a.Append(x, 'x'); });
    bad.add("the addition of a negative number of runes", [=, &a] { a.Append(x, 0xe9); });
    bad.add("the addition of a text of negative size", [=, &a] { a.Append(il::StringType::Ascii, text, x); });
    bad.add("the insertion of a text of negative size", [=, &a] { a.Insert(0, il::StringType::Ascii, text, x); });
    bad.add("a negative capacity", [=, &a] { a.Reserve(x); });
    bad.add("a construction with a negative size", [=] { A b{il::StringType::Ascii, text, x}; sink(b); });
    bad.add("a substring", [=, &a] { sink(a.substring(w == 0 ? i0 : o, w == 1 ? i1 : o)); });
    bad.add("a view", [=, &a] { sink(a.subview(w == 0 ? i0 : o, w == 1 ? i1 : o)); });
    if (swap) {
      bad.add("a substring", [=, &a] { sink(a.substring(i1, i0)); });
      bad.add("a view", [=, &a] { sink(a.subview(i1, i0)); });
    }
    bad.add("a boundary", [=, &a] { sink(a.isRuneBoundary(o)); });
    if (!wide) good.add("a substring", [=, &a] { sink(a.substring(i0, i1)); sink(a.subview(i0, i1)); });
    good.add("a boundary", [=, &a] { sink(a.isRuneBoundary(i0)); });
    good.add("an insertion at the end", [=, &a] { A b = a; b.Insert(n, 'x'); b.Insert(0, "xy"); });
    return judge(good, bad) && h.destroy("destruction");
  }
  g_object = "a StringView";
  // in the middle of a larger text
  const char* p = a.data() + i0;
  const il::int_t m = i1 - i0;
  il::StringView v{};
  if (!sut("view", [&] { v = il::StringView{il::StringType::Byte, p, m}; })) return false;
  const il::int_t q = outside(m, n - i0), q1 = outside(m + 1, n - i0 + 1);
  const il::int_t j0 = (il::int_t)pick((uint64_t)m + 1), j1 = j0 + (il::int_t)pick((uint64_t)(m - j0) + 1), neg = q < 0 ? q : -1;
  bad.add("a byte", [=, &v] { sink(v[q]); });
  bad.add("hasSpace", [=, &v] { sink(v.hasSpace(q)); });
  bad.add("hasDigit", [=, &v] { sink(v.hasDigit(q)); });
  bad.add("hasHexaDecimal", [=, &v] { sink(v.hasHexaDecimal(q)); });
  bad.add("hasNewLine", [=, &v] { sink(v.hasNewLine(q)); });
  bad.add("nextChar from a negative index", [=, &v] { sink(v.nextChar(neg, '?')); });
  bad.add("nextDigit from a negative index", [=, &v] { sink(v.nextDigit(neg)); });
  bad.add("a rune", [=, &v] { sink(v.rune(q)); });
  bad.add("the rune that follows", [=, &v] { sink(v.nextRune(neg == -1 ? -2 : neg)); });
  bad.add("the removal of a prefix", [=, &v] { v.removePrefix(q1); });
  bad.add("the removal of a suffix", [=, &v] { v.removeSuffix(q1); });
  bad.add("a part", [=, &v] { sink(v.subview(w == 0 ? j0 : q1, w == 1 ? j1 : q1)); });
  if (j0 < j1) bad.add("a part", [=, &v] { sink(v.subview(j1, j0)); });
  bad.add("a construction with a negative size", [=] { il::StringView u{il::StringType::Byte, text, x}; sink(u); });
  if (m == 0) bad.add("startsWithDigit", [&v] { sink(v.startsWithDigit()); });
  if (m > 0) {
    const il::int_t k = inside(m);
    good.add("a byte", [=, &v] { sink(v[k]); sink(v.hasSpace(k)); sink(v.hasDigit(k)); sink(v.hasHexaDecimal(k)); sink(v.hasNewLine(k)); });
    // a rune that is cut by the end of the view
    if (p[m - 1] == '\xc3') bad.add("a rune that is cut", [=, &v] { sink(v.rune(m - 1)); });
    if (i0 % 2 == 0 || i0 >= 2 * wide) if (p[0] != '\xc3' || m > 1) good.add("a rune", [=, &v] { sink(v.rune(0)); });
  }
  good.add("a search", [=, &v] { sink(v.nextChar(j0, '?')); sink(v.nextDigit(j0)); });
  good.add("a part", [=, &v] { sink(v.subview(j0, j1)); });
  good.add("the removal of a prefix", [=, &v] { il::StringView u = v; u.removePrefix(j0); u.removeSuffix(m - j0); sink(u); });
  return judge(good, bad) && h.destroy("destruction");
}
// Vectors and matrices whose sizes do not match.
bool sizes() {
  const il::int_t n = small(), m = small(), k = small();
  il::int_t o = small();
  if (o == n) o = n + 1;
  il::int_t o2 = small();
  if (o2 == m) o2 = m + 1;
  typedef il::Array<double> V;
  Holder<V> hx, hy, hz;
  Holder<il::Array2D<double>> hA, hB;
  Holder<il::Array2C<double>> hC;
  Holder<il::TriDiagonal<double>> hT;
  hx.raw(); hy.raw(); hz.raw(); hA.raw(); hB.raw(); hC.raw(); hT.raw();
  if (!built([&] {
        new (hx.p) V{n, 1.0};
        new (hy.p) V{o, 1.0};
        new (hz.p) V{m, 1.0};
        new (hA.p) il::Array2D<double>{m, n, 1.0};
        new (hB.p) il::Array2D<double>{o, k, 1.0};
        new (hC.p) il::Array2C<double>{m, n, 1.0};
        new (hT.p) il::TriDiagonal<double>{n};
      })) return false;
  V &x = *hx, &y = *hy, &z = *hz;
  il::Array2D<double>&A = *hA, &B = *hB;
  il::Array2C<double>& C = *hC;
  il::TriDiagonal<double>& T = *hT;
  List good, bad;
  g_object = "arguments";
  bad.add("a dot product of vectors of different sizes", [&] { sink(il::dot(x, y)); });
  bad.add("a product of a matrix and a vector", [&] { sink(il::dot(A, y)); });
  bad.add("a product of a row-major matrix and a vector", [&] { sink(il::dot(C, y)); });
  bad.add("a product of matrices", [&] { sink(il::dot(A, B)); });
  bad.add("a sum of vectors of different sizes", [&] { il::blas(2.0, x.view(), il::io, y.Edit()); });
  bad.add("a combination of vectors of different sizes", [&] { il::blas(2.0, x.view(), 1.0, il::io, y.Edit()); });
  bad.add("blas with a wrong vector", [&] { il::blas(2.0, A.view(), y.view(), 0.0, il::io, z.Edit()); });
  bad.add("blas with a wrong result", [&, o2] { V r{o2, 0.0}; il::blas(2.0, A.view(), x.view(), 0.0, il::io, r.Edit()); });
  bad.add("blas with a wrong matrix", [&] { il::Array2D<double> r{A.size(0), B.size(1), 0.0}; il::blas(2.0, A.view(), B.view(), 0.0, il::io, r.Edit()); });
  bad.add("the solution of a system of the wrong size", [&] { il::Status s{}; sink(il::linearSolve(il::Array2D<double>{x.size(), x.size(), 1.0}, y, il::io, s)); });
  bad.add("the solution of a tridiagonal system of the wrong size", [&] { il::Status s{}; sink(il::linearSolve(T, y, il::io, s)); });
  if (m != n) bad.add("the solution of a system that is not square", [&] { il::Status s{}; sink(il::linearSolve(A, z, il::io, s)); });
  good.add("products", [&] { sink(il::dot(x, x)); sink(il::dot(A, x)); sink(il::dot(C, x)); });
  if (!judge(good, bad)) return false;
  return hx.destroy("destruction") && hy.destroy("destruction") && hz.destroy("destruction") && hA.destroy("destruction") &&
         hB.destroy("destruction") && hC.destroy("destruction") && hT.destroy("destruction");
}
bool empties() {
  g_object = "an empty Array";
  typedef il::Array<double> V;
  const il::int_t n = 1 + small(), cap = (il::int_t)pick(5);
  Holder<V> he, hx;
  he.raw(); hx.raw();
  if (!built([&] { new (he.p) V{}; (*he).Reserve(cap); new (hx.p) V{n, 1.0}; })) return false;
  V &e = *he, &x = *hx;
  const il::Range r = badRange(n, (*hx).capacity()), g = goodRange(n);
  List good, bad;
  bad.add("min", [&] { sink(il::min(e)); });
  bad.add("max", [&] { sink(il::max(e)); });
  bad.add("mean", [&] { sink(il::mean(e)); });
  bad.add("min of a range", [&, r] { sink(il::min(x, r)); });
  bad.add("max of a range", [&, r] { sink(il::max(x, r)); });
  bad.add("indexMin of a range", [&, r] { sink(il::indexMin(x, r)); });
  bad.add("indexMax of a range", [&, r] { sink(il::indexMax(x, r)); });
  bad.add("indexMaxAbs of a range", [&, r] { sink(il::indexMaxAbs(x, r)); });
  bad.add("indexMin", [&] { sink(il::indexMin(e)); });
  bad.add("indexMax", [&] { sink(il::indexMax(e)); });
  bad.add("indexMaxAbs", [&] { sink(il::indexMaxAbs(e)); });
  bad.add("minMax", [&] { sink(il::minMax(e)); });
  bad.add("variance", [&] { sink(il::variance(e, il::VarianceKind::Population)); });
  bad.add("meanVariance", [&] { sink(il::meanVariance(e, il::VarianceKind::Population)); });
  bad.add("minMax of a range", [&, r] { sink(il::minMax(x, r)); });
  good.add("minMax of a range", [&, g] { if (g.begin < g.end) sink(il::minMax(x, g)); });
  good.add("sort", [&] { il::sort(il::io, e); });
  return judge(good, bad) && he.destroy("destruction") && hx.destroy("destruction");
}
}  // namespace

void world_bounds() {
  drawMemory(0);
  bool ok = true;
  switch (pick(27)) {
    case 0: ok = array<double>(); break;
    case 1: ok = array<Obj>(); break;
    case 2: ok = array<unsigned char>(); break;
    case 3: ok = pick(2) ? smallArray<double, 3>() : smallArray<Obj, 2>(); break;
    case 4: ok = pick(2) ? staticArray<int, 4>() : pick(2) ? staticArray<double, 0>() : staticArray<il::String, 2>(); break;
    case 5: ok = pick(2) ? view1D<int>() : view1D<il::String>(); break;
    case 6: ok = arrayND<2, il::Array2D<double>, double>("an Array2D"); break;
    case 7: ok = arrayND<2, il::Array2D<Obj>, Obj>("an Array2D"); break;
    case 8: ok = arrayND<2, il::Array2C<double>, double>("an Array2C"); break;
    case 9: ok = arrayND<3, il::Array3D<double>, double>("an Array3D"); break;
    case 10: ok = arrayND<3, il::Array3C<double>, double>("an Array3C"); break;
    case 11: ok = arrayND<4, il::Array4D<double>, double>("an Array4D"); break;
    case 12: ok = arrayND<4, il::Array4C<double>, double>("an Array4C"); break;
    case 13:
      switch (pick(4)) {
        case 0: ok = staticND<2, il::StaticArray2D<double, 3, 2>>("a StaticArray2D", {3, 2}); break;
        case 1: ok = staticND<2, il::StaticArray2C<double, 3, 2>>("a StaticArray2C", {3, 2}); break;
        case 2: ok = staticND<3, il::StaticArray3D<double, 3, 2, 4>>("a StaticArray3D", {3, 2, 4}); break;
        default: ok = staticND<4, il::StaticArray4D<double, 3, 2, 4, 2>>("a StaticArray4D", {3, 2, 4, 2}); break;
      }
      break;
    case 14: case 15: ok = pick(2) ? view2D<double>() : view2D<il::String>(); break;
    case 16: ok = view3D<double>(); break;
    case 17: ok = pick(2) ? triangle<il::LowerArray2D<double>>("a LowerArray2D", true) : triangle<il::UpperArray2D<double>>("an UpperArray2D", false); break;
    case 18: ok = pick(2) ? band() : tridiagonal(); break;
    case 19: ok = sparse(); break;
    case 20: ok = pick(2) ? deque<int>() : deque<Obj>(); break;
    case 21: ok = pick(2) ? map() : mapArray(); break;
    case 22: ok = info(); break;
    case 23: ok = dynamic(); break;
    case 24: ok = string(); break;
    case 25: ok = sizes(); break;
    default: ok = empties(); break;
  }
  unused(ok);
}
