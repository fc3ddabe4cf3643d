// Refused memory and impossible sizes (C20): every other world with refusals,
// plus requests whose element count cannot be represented as a byte size.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/BandArray2C.h>
#include <il/Deque.h>
#include <il/LowerArray2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/SmallArray.h>
#include <il/TriDiagonal.h>
#include <il/Tree.h>
#include <il/UTF16String.h>
#include <il/UpperArray2D.h>

#include "seq.h"

using namespace seq;

void world_array();
void world_small();
void world_static();
void world_nd();
void world_map();
void world_maparray();
void world_string();
void world_dynamic();
void world_info();
void world_deque();
void world_status();
void world_tri();
void world_utf16();
void world_tree();
void world_npy();
void world_toml();
void world_data();

namespace {
typedef unsigned __int128 Big;

// A count, mostly near a limit of what can be represented.
il::int_t hugeCount() {
  const int e = pickRange(20, 63);
  uint64_t v = 1ull << e;
  switch (pick(4)) {
    case 0: break;
    case 1: v += pick(5); break;
    case 2: v -= pick(5); break;
    default: v = v / 2 * 3 - pick(3); break;
  }
  if (v > 0x7fffffffffffffffull) v = 0x7fffffffffffffffull - pick(64);
  return (il::int_t)v;
}
il::int_t factor() {
  switch (pick(4)) {
    case 0: return hugeCount();
    case 1: return (il::int_t)1 << (20 + pick(43));
    case 2: return 1 + (il::int_t)pick(40);
    default: return (((il::int_t)1 << (20 + pick(20))) + (il::int_t)pick(3));
  }
}
const Big kTooMuch = (Big)96 << 20;  // more than the simulated system can give

// The operation asks for `bytes` bytes of elements: it must stop the process.
template <typename F>
void impossible(const char* what, const char* type, Big bytes, F&& f) {
  if (bytes <= kTooMuch) return;
  setStepBudget(3000000);
  const End e = guarded(f);
  evt(what, type, (uint64_t)bytes, (uint64_t)(bytes >> 64));
  nontrivial();
  fault("impossible-size");
  SIM_CHECK(e == End::Died, "continued-without-memory", "%s of %s went on although it needs %.6g bytes", what, type, (double)bytes);
  t_ctx.over = true;
}
template <typename T>
void sizes1(const char* type) {
  const il::int_t n = hugeCount(), r = (il::int_t)pick(6);
  const Big b = (Big)n * sizeof(T);
  switch (pick(16)) {
    case 0: impossible("Array(n)", type, b, [&] { il::Array<T> a{n}; }); break;
    case 1: impossible("Array(n, x)", type, b, [&] { T x{}; il::Array<T> a{n, x}; }); break;
    case 2: impossible("Array::Resize", type, b, [&] { il::Array<T> a{r}; a.Resize(n); }); break;
    case 3: impossible("Array::Resize(n, x)", type, b, [&] { il::Array<T> a{r}; T x{}; a.Resize(n, x); }); break;
    case 4: impossible("Array::Reserve", type, b, [&] { il::Array<T> a{r}; a.Reserve(n); }); break;
    case 5: impossible("SmallArray(n)", type, b, [&] { il::SmallArray<T, 4> a{n}; }); break;
    case 6: impossible("SmallArray(n, x)", type, b, [&] { T x{}; il::SmallArray<T, 4> a{n, x}; }); break;
    case 7: impossible("SmallArray::Resize", type, b, [&] { il::SmallArray<T, 4> a{r}; a.Resize(n); }); break;
    case 8: impossible("SmallArray::Reserve", type, b, [&] { il::SmallArray<T, 4> a{r}; a.Reserve(n); }); break;
    case 9: impossible("Deque(n)", type, b, [&] { il::Deque<T> a{n}; }); break;
    case 10: impossible("Deque::Reserve", type, b, [&] { il::Deque<T> a{r + 1}; a.Reserve(n); }); break;
    case 11: impossible("Map(n)", type, b, [&] { il::Map<int, T> a{n}; }); break;
    case 12: impossible("Map::Reserve", type, b, [&] { il::Map<int, T> a{}; a.Reserve(n); }); break;
    case 13: impossible("MapArray(n)", type, b, [&] { il::MapArray<int, T> a{n}; }); break;
    case 14: impossible("LowerArray2D", type, (Big)n * ((Big)n + 1) / 2 * sizeof(T), [&] { il::LowerArray2D<T> a{n}; }); break;
    default: impossible("UpperArray2D", type, (Big)n * ((Big)n + 1) / 2 * sizeof(T), [&] { il::UpperArray2D<T> a{n}; }); break;
  }
}
template <typename T>
void sizesAligned(const char* type) {
  const il::int_t n = hugeCount(), r = (il::int_t)pick(6);
  const il::int_t al = (il::int_t)alignof(T) << pick(7);
  const Big b = (Big)n * sizeof(T);
  switch (pick(6)) {
    case 0: impossible("Array(n, align)", type, b, [&] { il::Array<T> a{n, il::align, al}; }); break;
    case 1: impossible("Array(n, x, align)", type, b, [&] { il::Array<T> a{n, T{}, il::align, al}; }); break;
    case 2: impossible("aligned Array::Resize", type, b, [&] { il::Array<T> a{r, il::align, al}; a.Resize(n); }); break;
    case 3: impossible("aligned Array::Reserve", type, b, [&] { il::Array<T> a{r, il::align, al}; a.Reserve(n); }); break;
    case 4: {
      const il::int_t m = factor();
      impossible("Array2D(n0, n1, align)", type, b * (Big)m, [&] { il::Array2D<T> a{n, m, il::align, al}; });
      break;
    }
    default: {
      const il::int_t m = factor();
      impossible("Array2C(n0, n1, align)", type, b * (Big)m, [&] { il::Array2C<T> a{n, m, il::align, al}; });
      break;
    }
  }
}
// a product of up to 4 factors, saturated
Big mul(Big a, Big b) { return b && a > ~(Big)0 / b ? ~(Big)0 : a * b; }
template <typename T>
void sizesN(const char* type) {
  const il::int_t a = factor(), b = factor(), c = factor(), d = factor(), r = (il::int_t)pick(3);
  const Big p2 = mul(mul((Big)a, (Big)b), sizeof(T)), p3 = mul(p2, (Big)c), p4 = mul(p3, (Big)d);
  T x{};
  switch (pick(24)) {
    case 0: impossible("Array2D(n0, n1)", type, p2, [&] { il::Array2D<T> v{a, b}; }); break;
    case 1: impossible("Array2D(n0, n1, x)", type, p2, [&] { il::Array2D<T> v{a, b, x}; }); break;
    case 2: impossible("Array2D::Resize", type, p2, [&] { il::Array2D<T> v{r, r}; v.Resize(a, b); }); break;
    case 3: impossible("Array2D::Reserve", type, p2, [&] { il::Array2D<T> v{r, r}; v.Reserve(a, b); }); break;
    case 4: impossible("Array2C(n0, n1)", type, p2, [&] { il::Array2C<T> v{a, b}; }); break;
    case 5: impossible("Array2C(n0, n1, x)", type, p2, [&] { il::Array2C<T> v{a, b, x}; }); break;
    case 6: impossible("Array2C::Resize", type, p2, [&] { il::Array2C<T> v{r, r}; v.Resize(a, b); }); break;
    case 7: impossible("Array2C::Reserve", type, p2, [&] { il::Array2C<T> v{r, r}; v.Reserve(a, b); }); break;
    case 8: impossible("Array3D(n)", type, p3, [&] { il::Array3D<T> v{a, b, c}; }); break;
    case 9: impossible("Array3D::Resize", type, p3, [&] { il::Array3D<T> v{r, r, r}; v.Resize(a, b, c); }); break;
    case 10: impossible("Array3D::Reserve", type, p3, [&] { il::Array3D<T> v{r, r, r}; v.Reserve(a, b, c); }); break;
    case 11: impossible("Array3D(n, x)", type, p3, [&] { il::Array3D<T> v{a, b, c, x}; }); break;
    case 12: impossible("Array3C(n)", type, p3, [&] { il::Array3C<T> v{a, b, c}; }); break;
    case 13: impossible("Array3C::Resize", type, p3, [&] { il::Array3C<T> v{r, r, r}; v.Resize(a, b, c); }); break;
    case 14: impossible("Array3C::Reserve", type, p3, [&] { il::Array3C<T> v{r, r, r}; v.Reserve(a, b, c); }); break;
    case 15: impossible("Array3C(n, x)", type, p3, [&] { il::Array3C<T> v{a, b, c, x}; }); break;
    case 16: impossible("Array4D(n)", type, p4, [&] { il::Array4D<T> v{a, b, c, d}; }); break;
    case 17: impossible("Array4D::Resize", type, p4, [&] { il::Array4D<T> v{r, r, r, r}; v.Resize(a, b, c, d); }); break;
    case 18: impossible("Array4D::Reserve", type, p4, [&] { il::Array4D<T> v{r, r, r, r}; v.Reserve(a, b, c, d); }); break;
    case 19: impossible("Array4C(n)", type, p4, [&] { il::Array4C<T> v{a, b, c, d}; }); break;
    case 20: impossible("Array4C::Resize", type, p4, [&] { il::Array4C<T> v{r, r, r, r}; v.Resize(a, b, c, d); }); break;
    case 21: impossible("Array4C::Reserve", type, p4, [&] { il::Array4C<T> v{r, r, r, r}; v.Reserve(a, b, c, d); }); break;
    case 22: impossible("Array4D(n, x)", type, p4, [&] { il::Array4D<T> v{a, b, c, d, x}; }); break;
    default: impossible("Array4C(n, x)", type, p4, [&] { il::Array4C<T> v{a, b, c, d, x}; }); break;
  }
}
void sizesOther() {
  const il::int_t n = hugeCount();
  switch (pick(12)) {
    case 6: impossible("UTF16String::Reserve", "char16_t", 2 * ((Big)n + 1), [&] { il::UTF16String s{}; s.Append('a'); s.Reserve(n); }); break;
    case 7: impossible("UTF16String::Append(n, c)", "char16_t", 2 * ((Big)n + 2), [&] { il::UTF16String s{}; s.Append('a'); s.Append(n, 'x'); }); break;
    case 8: {
      const il::int_t d = 24 + (il::int_t)pick(pick(2) ? 200 : 45);
      impossible("Tree<int, 2>(depth)", "node", d > 90 ? ~(Big)0 : (((Big)1 << (d + 1)) - 1) * 16, [&] { il::Tree<int, 2> t{d}; });
      break;
    }
    case 9: {
      const il::int_t d = 12 + (il::int_t)pick(60);
      impossible("Tree<double, 8>(depth)", "node", d > 40 ? ~(Big)0 : ((Big)1 << (3 * d)) * 16, [&] { il::Tree<double, 8> t{d}; });
      break;
    }
    case 10: impossible("Tree<int, 1>(depth)", "node", ((Big)n + 1) * 16, [&] { il::Tree<int, 1> t{n}; }); break;
    case 5: {
      const il::int_t kl = factor(), ku = factor();
      impossible("BandArray2C of huge band", "double", mul(mul(100, (Big)kl * 2 + (Big)ku + 1), 8), [&] { il::BandArray2C<double> s{100, 100, kl, ku}; });
      break;
    }
    case 0: impossible("String::Reserve", "char", (Big)n + 1, [&] { il::String s{"abc"}; s.Reserve(n); }); break;
    case 1: impossible("String::Append(n, c)", "char", (Big)n + 4, [&] { il::String s{"abc"}; s.Append(n, 'x'); }); break;
    case 2: impossible("String::Append(n, rune)", "char", 2 * (Big)n + 4, [&] { il::String s{"abc"}; s.Append(n, 0xE9); }); break;
    case 3: impossible("String::Append(n, rune4)", "char", 4 * (Big)n + 4, [&] { il::String s{"abc"}; s.Append(n, 0x1F600); }); break;
    case 4: impossible("TriDiagonal", "double", 3 * (Big)n * 8, [&] { il::TriDiagonal<double> s{n}; }); break;
    default: {
      const il::int_t w = 1 + (il::int_t)pick(30), kl = (il::int_t)pick(3), ku = (il::int_t)pick(3);
      impossible("BandArray2C", "double", (Big)n * (Big)(kl + ku + 1) * 8, [&] { il::BandArray2C<double> s{n, w, kl, ku}; });
      break;
    }
  }
}
void sizes() {
  drawMemory(0);
  switch (pick(12)) {
    case 0: sizes1<unsigned char>("unsigned char"); break;
    case 1: sizes1<short>("short"); break;
    case 2: sizes1<int>("int"); break;
    case 3: sizes1<double>("double"); break;
    case 4: sizes1<il::String>("String"); break;
    case 5: sizesAligned<double>("double"); break;
    case 6: sizesAligned<int>("int"); break;
    case 7: sizesN<unsigned char>("unsigned char"); break;
    case 8: sizesN<double>("double"); break;
    case 9: sizesN<il::String>("String"); break;
    case 10: sizesN<int>("int"); break;
    default: sizesOther(); break;
  }
}
}  // namespace

void world_memory() {
  switch (draw(20)) {
    case 0: world_array(); break;
    case 1: world_small(); break;
    case 2: world_nd(); break;
    case 3: world_map(); break;
    case 4: world_maparray(); break;
    case 5: world_string(); break;
    case 6: world_dynamic(); break;
    case 7: world_info(); break;
    case 8: world_deque(); break;
    case 9: world_status(); break;
    case 10: world_tri(); break;
    case 11: world_npy(); break;
    case 12: world_toml(); break;
    case 13: world_data(); break;
    case 14: world_utf16(); break;
    case 15: world_tree(); break;
    default: sizes(); break;
  }
}
