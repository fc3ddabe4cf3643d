// Small-buffer arrays and arrays of fixed size (C13).
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>

#include "seq.h"

using namespace seq;

namespace {
typedef std::vector<int> M;
const int kSlots = 3;

// ---------------------------------------------------------------- SmallArray
template <typename T, int S>
struct World {
  typedef il::SmallArray<T, S> A;
  Holder<A> h[kSlots];
  M m[kSlots];
  static bool triv() { return El<T>::trivial; }

  bool check(int k, const char* what) {
    A& a = *h[k];
    il::int_t n = -1, c = -1;
    const T* d = nullptr;
    if (!sut("size", [&] { const A& r = a; n = r.size(); c = r.capacity(); d = r.data(); })) return false;
    evt(what, k, n);
    SIM_CHECK(n == (il::int_t)m[k].size(), "wrong-size", "%s: size %ld instead of %zu", what, (long)n, m[k].size());
    SIM_CHECK(c >= n, "capacity-below-size", "%s: capacity %ld below size %ld", what, (long)c, (long)n);
    checkBlock(what, d, c, sizeof(T), h[k].p, sizeof(A));
    SIM_CHECK(c == 0 || (size_t)d % alignof(T) == 0, "misaligned", "%s: elements are not aligned for their type", what);
    std::vector<int> got((size_t)n, kUnknown);
    int* g = got.data();
    const int* w = m[k].data();
    int last = kUnknown;
    if (!sut("reading", [&] {
          const A& r = a;
          for (il::int_t i = 0; i < n; ++i)
            if (w[i] != kUnknown) g[i] = El<T>::get(r[i]);
          if (n > 0 && w[n - 1] != kUnknown) last = El<T>::get(r.back());
        })) return false;
    compare(what, got, m[k]);
    if (n > 0) SIM_CHECK(last == m[k].back() || m[k].back() == kUnknown, "wrong-element", "%s: back() differs", what);
    for (int j = 0; j < kSlots; ++j) {
      if (j == k || !h[j].live()) continue;
      const char *p = (const char*)d, *q = (const char*)h[j]->data();
      const il::int_t cj = h[j]->capacity();
      SIM_CHECK(c == 0 || cj == 0 || p + c * sizeof(T) <= q || q + cj * sizeof(T) <= p, "shared-storage", "%s: two arrays share storage", what);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  bool resync(int k) {
    il::int_t n = 0;
    if (!sut("size", [&] { n = h[k]->size(); })) return false;
    SIM_CHECK(n >= 0 && n < 100000, "moved-from-invalid", "a moved-from array has size %ld", (long)n);
    m[k].assign((size_t)n, kUnknown);
    return true;
  }
  // sizes around the inline capacity
  int sizePick() {
    switch (pick(4)) {
      case 0: return (int)pick(S + 1);
      case 1: return S;
      case 2: return S + 1 + (int)pick(3);
      default:
        if (t_ctx.large && pick(3) == 0) {  // around the size, often the capacity, of an array that is there
          const int near = (int)m[pick(kSlots)].size() - 2 + (int)pick(6);
          if (near >= 0) return near;
        }
        return scaled((int)pick(24), 600);
    }
  }
  int resizePick(int n, int k) {
    const int c = (int)h[k]->capacity();
    switch (pick(7)) {
      case 0: return n;
      case 1: return c;
      case 2: return c + 1;
      case 3: return n + (int)pick(5);
      case 4: {  // around what another array has room for
        const int j = (int)pick(kSlots);
        const int near = h[j].live() ? (int)h[j]->capacity() - 1 + (int)pick(4) : 0;
        return near < 0 || near > 20000 ? n : near;
      }
      default: return sizePick();
    }
  }
  int other(int k) {
    int c[kSlots], n = 0;
    for (int j = 0; j < kSlots; ++j)
      if (j != k && h[j].live()) c[n++] = j;
    return n ? c[pick((uint64_t)n)] : -1;
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    M& w = m[k];
    const int fresh = triv() ? kUnknown : kDefault;
    switch (pick(8)) {
      case 0: { const int n = sizePick(); w.assign((size_t)n, fresh); return sut("SmallArray(n)", [&] { new (p) A{(il::int_t)n}; }); }
      case 1: w.clear(); return sut("SmallArray()", [&] { new (p) A{}; });
      case 2: { const int n = sizePick(), x = value(); w.assign((size_t)n, x); return sut("SmallArray(n, x)", [&] { new (p) A{(il::int_t)n, El<T>::make(x)}; }); }
      case 3: {
        const int x = value(), y = value(), z = value(), t = value();
        switch (pick(4)) {
          case 0: w = M{x, y, z}; return sut("SmallArray(list)", [&] { new (p) A{il::value, {El<T>::make(x), El<T>::make(y), El<T>::make(z)}}; });
          case 1: w = M{x}; return sut("SmallArray(list)", [&] { new (p) A{il::value, {El<T>::make(x)}}; });
          case 2: w = M{x, y, z, t}; return sut("SmallArray(list)", [&] { new (p) A{il::value, {El<T>::make(x), El<T>::make(y), El<T>::make(z), El<T>::make(t)}}; });
          default: w.clear(); return sut("SmallArray(list)", [&] { new (p) A{il::value, std::initializer_list<T>{}}; });
        }
      }
      case 4: case 5: case 6: {
        const int j = other(k);
        if (j < 0) { w.clear(); return sut("SmallArray()", [&] { new (p) A{}; }); }
        w = m[j];
        if (pick(2)) return sut("copy construction", [&] { const A& s = *h[j]; new (p) A(s); }) && check(j, "copied-from");
        return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j) && check(j, "moved-from");
      }
      default: { const int n = pick(2) ? S : S + 1, x = value(); w.assign((size_t)n, x); return sut("SmallArray(n, x)", [&] { new (p) A{(il::int_t)n, El<T>::make(x)}; }); }
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k) && check(k, "construct");
    A& a = *h[k];
    M& w = m[k];
    const int n = (int)w.size();
    const int fresh = triv() ? kUnknown : kDefault;
    switch (pick(22)) {
      case 0: case 1: { const int x = value(); w.push_back(x); return sut("Append(x)", [&] { const T e = El<T>::make(x); a.Append(e); }) && check(k, "append"); }
      case 2: { const int x = value(); w.push_back(x); return sut("Append(T&&)", [&] { a.Append(El<T>::make(x)); }) && check(k, "append-move"); }
      case 3: case 4: {
        if (n == 0) return true;
        const int i = one(2) ? n - 1 : (int)pick((uint64_t)n), x = w[(size_t)i];
        if (x == kUnknown && !triv()) return true;
        switch (pick(3)) {
          case 0: w.push_back(x); return sut("Append(own element)", [&] { const T& e = a[i]; a.Append(e); }) && check(k, "append-own");
          case 1: w.push_back(x); return sut("Append(emplace own element)", [&] { T& e = a[i]; a.Append(e); }) && check(k, "append-own-emplace");
          default:
            w.push_back(x);
            if (!triv()) w[(size_t)i] = kUnknown;
            return sut("Append(moved own element)", [&] { a.Append(std::move(a[i])); }) && check(k, "append-own-moved");
        }
      }
      case 5: case 6: case 7: {
        const int r = resizePick(n, k);
        w.resize((size_t)r, fresh);
        return sut("Resize(n)", [&] { a.Resize(r); }) && check(k, "resize");
      }
      case 8: case 9: {
        const int r = resizePick(n, k);
        if (!sut("Reserve", [&] { a.Reserve(r); })) return false;
        il::int_t c = 0;
        if (!sut("capacity", [&] { c = a.capacity(); })) return false;
        SIM_CHECK(c >= r, "reserve-too-small", "Reserve(%d) left a capacity of %ld", r, (long)c);
        return check(k, "reserve");
      }
      case 10: case 11: {
        if (n == 0) return true;
        const int i = (int)pick((uint64_t)n), x = value();
        switch (pick(5)) {
          case 0: w[(size_t)i] = x; return sut("write", [&] { a[i] = El<T>::make(x); }) && check(k, "write");
          case 1: w.back() = x; return sut("Back", [&] { a.Back() = El<T>::make(x); }) && check(k, "back");
          case 2: w[(size_t)i] = x; return sut("Data", [&] { a.Data()[i] = El<T>::make(x); }) && check(k, "data");
          case 3: w[(size_t)i] = x; return sut("Edit", [&] { il::ArrayEdit<T> e = a.Edit(); e[i] = El<T>::make(x); }) && check(k, "edit");
          default: {
            const int b = (int)pick((uint64_t)i + 1);
            w[(size_t)i] = x;
            return sut("Edit(range)", [&] { il::ArrayEdit<T> e = a.Edit(il::Range{b, n}); e[i - b] = El<T>::make(x); }) && check(k, "edit-range");
          }
        }
      }
      case 12: case 13: case 14: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) w = m[j];
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; }) && check(k, "copy-assign") && (j == k || check(j, "copied-from"));
      }
      case 15: case 16: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k) && check(k, "self-move");
        w = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j) && check(k, "move-assign") && check(j, "moved-from");
      }
      case 17: return h[k].destroy("destruction");
      case 18: {
        if (n == 0) return true;
        int got = kUnknown;
        const int b = (int)pick((uint64_t)n), e = b + 1 + (int)pick((uint64_t)(n - b)), i = (int)pick((uint64_t)(e - b));
        il::int_t vs = -1, fs = -1;
        const int x = w[(size_t)(b + i)];
        if (!sut("view", [&] {
              const A& r = a;
              il::ArrayView<T> v = r.view(il::Range{b, e});
              vs = v.size();
              fs = r.view().size();
              if (x != kUnknown) got = El<T>::get(v[i]);
            })) return false;
        SIM_CHECK(vs == e - b && fs == n, "view-size", "a view of [%d, %d) has size %ld, the whole view %ld of %d", b, e, (long)vs, (long)fs, n);
        SIM_CHECK(x == kUnknown || got == x, "view-element", "element %d of a view is %d instead of %d", i, got, x);
        return true;
      }
      case 19: {
        const int c = 1 + (int)pick(S + 4);
        for (int t = 0; t < c; ++t) {
          const int x = value();
          w.push_back(x);
          if (!sut("Append(x)", [&] { const T e = El<T>::make(x); a.Append(e); })) return false;
        }
        return check(k, "appends");
      }
      default:
        if (one(2)) return h[k].destroy("destruction") && construct(k) && check(k, "construct");
        const int r = (int)pick((uint64_t)n + 1);
        w.resize((size_t)r);
        return sut("Resize(n)", [&] { a.Resize(r); }) && check(k, "shrink");
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok) ok = checkAll("all");
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};

// ---------------------------------------------------------------- fixed size
// What the fixed-size arrays have in common: n elements, the i-th (in storage
// order) reached through its indices.
template <typename T, int N> struct F1 {
  typedef il::StaticArray<T, N> A;
  static const int n = N;
  static T& at(A& a, int i) { return a[i]; }
  static const T& at(const A& a, int i) { return a[i]; }
  static bool sizes(const A& a) { return a.size() == N; }
  static void list(void* p, const int* x) { if (N == 4) new (p) A(il::value, {El<T>::make(x[0]), El<T>::make(x[1]), El<T>::make(x[2]), El<T>::make(x[3])}); else new (p) A(El<T>::make(x[0])); }
  static const bool has_list = N == 4;
  static T& edit(A& a, int i) { const int b = i / 2; return i % 2 ? a.Edit()[i] : a.Edit(il::Range{b, N})[i - b]; }
  static T view(const A& a, int i) { const int b = i / 2; return i % 2 ? a.view()[i] : a.view(il::Range{b, N})[i - b]; }
};
template <typename T> struct F2D {
  typedef il::StaticArray2D<T, 2, 3> A;
  static const int n = 6;
  static T& at(A& a, int i) { return a(i % 2, i / 2); }
  static const T& at(const A& a, int i) { return a(i % 2, i / 2); }
  static bool sizes(const A& a) { return a.size(0) == 2 && a.size(1) == 3; }
  static void list(void* p, const int* x) { new (p) A(il::value, {{El<T>::make(x[0]), El<T>::make(x[1])}, {El<T>::make(x[2]), El<T>::make(x[3])}, {El<T>::make(x[4]), El<T>::make(x[5])}}); }
  static const bool has_list = true;
  static T& edit(A& a, int i) { il::Array2DEdit<T> e = a.Edit(); return e(i % 2, i / 2); }
  static T view(const A& a, int i) { il::Array2DView<T> v = a.view(); return v(i % 2, i / 2); }
};
template <typename T> struct F2C {
  typedef il::StaticArray2C<T, 2, 3> A;
  static const int n = 6;
  static T& at(A& a, int i) { return a(i / 3, i % 3); }
  static const T& at(const A& a, int i) { return a(i / 3, i % 3); }
  static bool sizes(const A& a) { return a.size(0) == 2 && a.size(1) == 3; }
  static void list(void* p, const int* x) { new (p) A(il::value, {{El<T>::make(x[0]), El<T>::make(x[1]), El<T>::make(x[2])}, {El<T>::make(x[3]), El<T>::make(x[4]), El<T>::make(x[5])}}); }
  static const bool has_list = true;
  static T& edit(A& a, int i) { return at(a, i); }
  static T view(const A& a, int i) { return at(a, i); }
};
template <typename T> struct F3 {
  typedef il::StaticArray3D<T, 2, 1, 3> A;
  static const int n = 6;
  static T& at(A& a, int i) { return a(i % 2, 0, i / 2); }
  static const T& at(const A& a, int i) { return a(i % 2, 0, i / 2); }
  static bool sizes(const A& a) { return a.size(0) == 2 && a.size(1) == 1 && a.size(2) == 3; }
  static void list(void* p, const int* x) { new (p) A(il::value, {{{El<T>::make(x[0]), El<T>::make(x[1])}}, {{El<T>::make(x[2]), El<T>::make(x[3])}}, {{El<T>::make(x[4]), El<T>::make(x[5])}}}); }
  static const bool has_list = true;
  static T& edit(A& a, int i) { return at(a, i); }
  static T view(const A& a, int i) { return at(a, i); }
};
template <typename T> struct F4 {
  typedef il::StaticArray4D<T, 2, 3, 1, 2> A;
  static const int n = 12;
  static T& at(A& a, int i) { return a(i % 2, i / 2 % 3, 0, i / 6); }
  static const T& at(const A& a, int i) { return a(i % 2, i / 2 % 3, 0, i / 6); }
  static bool sizes(const A& a) { return a.size(0) == 2 && a.size(1) == 3 && a.size(2) == 1 && a.size(3) == 2; }
  static void list(void* p, const int* x) { new (p) A(El<T>::make(x[0])); }
  static const bool has_list = false;
  static T& edit(A& a, int i) { return at(a, i); }
  static T view(const A& a, int i) { return at(a, i); }
};

template <typename T, typename F>
struct Fixed {
  typedef typename F::A A;
  static const int n = F::n;
  Holder<A> h[kSlots];
  M m[kSlots];
  static bool triv() { return El<T>::trivial; }
  bool check(int k, const char* what) {
    int got[n];
    const int* w = m[k].data();
    bool sizes = false, place = false;
    if (!sut("reading", [&] {
          const A& a = *h[k];
          sizes = F::sizes(a);
          place = (const void*)a.data() == (const void*)&F::at(a, 0) && (void*)h[k]->Data() == (const void*)a.data();
          for (int i = 0; i < n; ++i) {
            got[i] = kUnknown;
            if (w[i] == kUnknown) continue;
            got[i] = El<T>::get(F::at(a, i));
            if (El<T>::get(F::view(a, i)) != got[i]) got[i] = -98;
          }
        })) return false;
    evt(what, k);
    SIM_CHECK(sizes, "wrong-size", "%s: a fixed-size array reports another size", what);
    SIM_CHECK(place, "wrong-range", "%s: data() is not the first element", what);
    for (int i = 0; i < n; ++i)
      if (w[i] != kUnknown) SIM_CHECK(got[i] == w[i], "wrong-element", "%s: element %d is %d instead of %d", what, i, got[i], w[i]);
    // each index has its own place inside the object
    for (int i = 0; i < n; ++i) {
      const char* q = (const char*)&F::at(*h[k], i);
      SIM_CHECK(q >= (char*)h[k].p && q + sizeof(T) <= (char*)h[k].p + sizeof(A), "outside-block", "%s: element %d lies outside the array", what, i);
      for (int j = 0; j < i; ++j)
        SIM_CHECK(q >= (char*)(&F::at(*h[k], j) + 1) || q + sizeof(T) <= (char*)&F::at(*h[k], j), "shared-storage", "%s: elements %d and %d share storage", what, i, j);
    }
    return true;
  }
  int other(int k) {
    int c[kSlots], t = 0;
    for (int j = 0; j < kSlots; ++j)
      if (j != k && h[j].live()) c[t++] = j;
    return t ? c[pick((uint64_t)t)] : -1;
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    M& w = m[k];
    switch (pick(5)) {
      case 0: w.assign(n, triv() ? kUnknown : kDefault); return sut("default construction", [&] { new (p) A(); });
      case 1: { const int x = value(); w.assign(n, x); return sut("construction from a value", [&] { new (p) A(El<T>::make(x)); }); }
      case 2: {
        int x[n];
        for (int i = 0; i < n; ++i) x[i] = F::has_list || i == 0 ? value() : x[0];
        w.assign(x, x + n);
        return sut("construction from a list", [&] { F::list(p, x); });
      }
      default: {
        const int j = other(k);
        if (j < 0) { const int x = value(); w.assign(n, x); return sut("construction from a value", [&] { new (p) A(El<T>::make(x)); }); }
        w = m[j];
        if (pick(2)) return sut("copy construction", [&] { const A& s = *h[j]; new (p) A(s); }) && check(j, "copied-from");
        if (!sut("move construction", [&] { new (p) A(std::move(*h[j])); })) return false;
        if (!triv()) m[j].assign(n, kUnknown);
        return true;
      }
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k) && check(k, "construct");
    A& a = *h[k];
    M& w = m[k];
    switch (pick(8)) {
      case 0: case 1: case 2: {
        const int i = (int)pick(n), x = value();
        w[(size_t)i] = x;
        const int how = (int)pick(3);
        return sut("write", [&] {
          if (how == 0) F::at(a, i) = El<T>::make(x);
          else if (how == 1) F::edit(a, i) = El<T>::make(x);
          else a.Data()[i] = El<T>::make(x);
        }) && check(k, "write");
      }
      case 3: case 4: {
        const int j = one(5) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) w = m[j];
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; }) && check(k, "copy-assign") && (j == k || check(j, "copied-from"));
      }
      case 5: {
        const int j = (int)pick(kSlots);
        if (!h[j].live() || j == k) return true;
        w = m[j];
        if (!triv()) m[j].assign(n, kUnknown);
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && check(k, "move-assign");
      }
      case 6: return h[k].destroy("destruction");
      default: return h[k].destroy("destruction") && construct(k) && check(k, "construct");
    }
  }
  void run() {
    const int ops = 1 + (int)pick(thorough() ? 40 : 20);
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) ok = step();
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};

template <typename T, int S>
void go() {
  evt("SmallArray", El<T>::name(), S);
  World<T, S> w;
  w.run();
}
template <typename T, typename F>
void goFixed(const char* name) {
  evt(name, El<T>::name());
  Fixed<T, F> w;
  w.run();
}
template <typename T>
void fixedOf() {
  switch (pick(6)) {
    case 0: goFixed<T, F1<T, 4>>("StaticArray"); break;
    case 1: goFixed<T, F1<T, 1>>("StaticArray1"); break;
    case 2: goFixed<T, F2D<T>>("StaticArray2D"); break;
    case 3: goFixed<T, F2C<T>>("StaticArray2C"); break;
    case 4: goFixed<T, F3<T>>("StaticArray3D"); break;
    default: goFixed<T, F4<T>>("StaticArray4D"); break;
  }
}
}  // namespace

void world_static() {
  drawMemory(refusals());
  switch (pick(3)) {
    case 0: fixedOf<Obj>(); break;
    case 1: fixedOf<int>(); break;
    default: fixedOf<il::String>(); break;
  }
}
void world_small() {
  if (pick(5) == 4) { world_static(); return; }
  drawMemory(refusals());
  switch (pick(8)) {
    case 0: go<int, 3>(); break;
    case 1: go<Obj, 3>(); break;
    case 2: go<il::String, 2>(); break;
    case 3: go<double, 4>(); break;
    case 4: go<Obj, 1>(); break;
    case 5: go<il::String, 6>(); break;
    case 6: go<short, 1>(); break;
    default: go<Obj, 8>(); break;
  }
}
