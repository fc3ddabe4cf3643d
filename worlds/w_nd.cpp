// Arrays of two, three and four dimensions (C12), and their alignment (C14).
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>

#include "seq.h"

using namespace seq;

namespace {
typedef il::int_t I;
const int kMaxD = 4;

// Uniform access to the six kinds.
template <typename A, int D> struct Call;
template <typename A> struct Call<A, 2> {
  template <typename... R> static void ctor(void* p, const I* n, R&&... r) { new (p) A(n[0], n[1], std::forward<R>(r)...); }
  template <typename... R> static void resize(A& a, const I* n, R&&... r) { a.Resize(n[0], n[1], std::forward<R>(r)...); }
  static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1]); }
  template <typename B> static auto at(B& a, const I* i) -> decltype(a(0, 0)) { return a(i[0], i[1]); }
};
template <typename A> struct Call<A, 3> {
  template <typename... R> static void ctor(void* p, const I* n, R&&... r) { new (p) A(n[0], n[1], n[2], std::forward<R>(r)...); }
  template <typename... R> static void resize(A& a, const I* n, R&&... r) { a.Resize(n[0], n[1], n[2], std::forward<R>(r)...); }
  static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1], n[2]); }
  template <typename B> static auto at(B& a, const I* i) -> decltype(a(0, 0, 0)) { return a(i[0], i[1], i[2]); }
};
template <typename A> struct Call<A, 4> {
  template <typename... R> static void ctor(void* p, const I* n, R&&... r) { new (p) A(n[0], n[1], n[2], n[3], std::forward<R>(r)...); }
  template <typename... R> static void resize(A& a, const I* n, R&&... r) { a.Resize(n[0], n[1], n[2], n[3], std::forward<R>(r)...); }
  static void reserve(A& a, const I* n) { a.Reserve(n[0], n[1], n[2], n[3]); }
  template <typename B> static auto at(B& a, const I* i) -> decltype(a(0, 0, 0, 0)) { return a(i[0], i[1], i[2], i[3]); }
};
// What only some kinds have.
template <typename T> struct Ls {
  typedef std::initializer_list<T> L1;
  typedef std::initializer_list<L1> L2;
  typedef std::initializer_list<L2> L3;
};
template <typename A> struct Extra {
  static const bool aligned = false, fill = false, set = false, views = false, list = false, strided = false, fortran = false;
};
template <typename T> struct Extra<il::Array2D<T>> {
  static const bool aligned = true, fill = true, set = false, views = true, list = true, strided = true, fortran = true;
};
template <typename T> struct Extra<il::Array2C<T>> {
  static const bool aligned = true, fill = false, set = true, views = true, list = true, strided = true, fortran = false;
};
template <typename T> struct Extra<il::Array3D<T>> {
  static const bool aligned = true, fill = false, set = false, views = false, list = true, strided = true, fortran = true;
};
template <typename T> struct Extra<il::Array3C<T>> {
  static const bool aligned = true, fill = false, set = false, views = false, list = true, strided = true, fortran = false;
};
template <typename T> struct Extra<il::Array4D<T>> : Extra<int> { static const bool fortran = true; };

struct Model {
  I n[kMaxD] = {0, 0, 0, 0};
  std::vector<int> v;
};

template <template <typename> class Arr, typename T, int D>
struct World {
  typedef Arr<T> A;
  typedef Call<A, D> C;
  typedef Extra<A> X;
  typedef std::integral_constant<bool, true> Yes;
  typedef std::integral_constant<bool, false> No;
  template <bool B> struct Flag : std::integral_constant<bool, B> {};
  static const int kSlots = 3;
  Holder<A> h[kSlots];
  Model m[kSlots];
  int mod[kSlots], res[kSlots], grain[kSlots];
  bool al = false;

  static bool triv() { return El<T>::trivial; }
  static size_t count(const I* n) {
    size_t c = 1;
    for (int d = 0; d < D; ++d) c *= (size_t)n[d];
    return c;
  }
  static size_t index(const I* n, const I* i) {  // row-major, the model's own layout
    size_t r = 0;
    for (int d = 0; d < D; ++d) r = r * (size_t)n[d] + (size_t)i[d];
    return r;
  }
  static bool next(const I* n, I* i) {
    for (int d = D - 1; d >= 0; --d) {
      if (++i[d] < n[d]) return true;
      i[d] = 0;
    }
    return false;
  }
  void reshape(Model& w, const I* n, int x) {
    Model o = w;
    w.v.assign(count(n), x);
    for (int d = 0; d < D; ++d) w.n[d] = n[d];
    if (w.v.empty()) return;
    I i[kMaxD] = {0, 0, 0, 0};
    do {
      bool in = true;
      for (int d = 0; d < D; ++d) in = in && i[d] < o.n[d];
      if (in) w.v[index(n, i)] = o.v[index(o.n, i)];
    } while (next(n, i));
  }
  void shapePick(I* n) {
    const int big = D == 2 ? 10 : D == 3 ? 5 : 4;
    for (int d = 0; d < D; ++d) n[d] = one(7) ? 0 : 1 + (I)pick((uint64_t)big);
    if (D == 2 && one(5)) n[pick(2)] = (I)pick(40);
    const int d = (int)pick(D);
    n[d] = (I)scaled((int)n[d], D == 2 ? 300 : 80);
  }

  I strideOf(const A& a, int d, Yes) { return a.stride(d); }
  I strideOf(const A&, int, No) { return -1; }

  bool check(int k, const char* what) {
    A& a = *h[k];
    Model& w = m[k];
    I n[kMaxD], c[kMaxD], st[kMaxD];
    const T* data = nullptr;
    if (!sut("size", [&] {
          const A& r = a;
          for (int d = 0; d < D; ++d) {
            n[d] = r.size(d);
            c[d] = r.capacity(d);
            st[d] = X::strided ? strideOf(r, d, Flag<X::strided>()) : -1;
          }
          data = r.data();
        })) return false;
    I cells = 1;
    for (int d = 0; d < D; ++d) {
      evt(what, d, n[d]);
      SIM_CHECK(n[d] == w.n[d], "wrong-size", "%s: size(%d) is %ld instead of %ld", what, d, (long)n[d], (long)w.n[d]);
      SIM_CHECK(c[d] >= n[d], "capacity-below-size", "%s: capacity(%d) is %ld below the size %ld", what, d, (long)c[d], (long)n[d]);
      cells *= c[d];
    }
    checkBlock(what, data, cells, sizeof(T), h[k].p, sizeof(A));
    if (X::strided && cells > 0) {
      // strides say where elements are
      I want = 1;
      for (int e = 0; e < D; ++e) {
        const int d = X::fortran ? e : D - 1 - e;
        SIM_CHECK(st[d] == want, "wrong-stride", "%s: stride(%d) is %ld instead of %ld", what, d, (long)st[d], (long)want);
        want *= c[d];
      }
    }
    const bool some = count(n) > 0;
    if (al && mod[k] && cells > 0) {
      SIM_CHECK((I)((size_t)data % (size_t)mod[k]) == res[k], "misaligned",
                "%s: the first element lies at %zu modulo %d instead of %d", what, (size_t)data % (size_t)mod[k], mod[k], res[k]);
    }
    std::vector<int> got(w.v.size(), kUnknown);
    std::vector<const char*> where(w.v.size(), nullptr);
    if (some) {
      int* g = got.data();
      const int* wv = w.v.data();
      const char** wh = where.data();
      if (!sut("reading", [&] {
            const A& r = a;
            I i[kMaxD] = {0, 0, 0, 0};
            size_t q = 0;
            do {
              const T& e = C::at(r, i);
              wh[q] = (const char*)&e;
              if (wv[q] != kUnknown) g[q] = El<T>::get(e);
              ++q;
            } while (next(n, i));
          })) return false;
      const char* lo = (const char*)data;
      std::vector<bool> used((size_t)cells, false);
      for (size_t q = 0; q < where.size(); ++q) {
        const ptrdiff_t off = (where[q] - lo) / (ptrdiff_t)sizeof(T);
        SIM_CHECK(off >= 0 && off < cells, "outside-array", "%s: element %zu lies outside the capacity", what, q);
        SIM_CHECK(!used[(size_t)off], "shared-storage", "%s: two indices share storage", what);
        used[(size_t)off] = true;
      }
      compare(what, got, w.v);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  bool resync(int k) {
    I n[kMaxD] = {0, 0, 0, 0};
    if (!sut("size", [&] { for (int d = 0; d < D; ++d) n[d] = h[k]->size(d); })) return false;
    I c = 1;
    for (int d = 0; d < D; ++d) {
      SIM_CHECK(n[d] >= 0 && n[d] < 1000, "moved-from-invalid", "a moved-from array has size(%d) = %ld", d, (long)n[d]);
      m[k].n[d] = n[d];
      c *= n[d];
    }
    m[k].v.assign((size_t)c, kUnknown);
    mod[k] = 0;
    return true;
  }
  int other(int k) {
    int c[kSlots], n = 0;
    for (int j = 0; j < kSlots; ++j)
      if (j != k && h[j].live()) c[n++] = j;
    return n ? c[pick((uint64_t)n)] : -1;
  }
  void drawAlign(int& a, int& mo, int& r) {
    const int s = (int)alignof(T);
    switch (pick(3)) {
      case 0: a = s * (1 << pick(5)); break;
      case 1: a = 64; break;
      default: a = s * pickRange(1, 6); break;
    }
    mo = a * (pick(2) ? 1 : pickRange(1, 8));
    r = pick(2) ? 0 : a * (int)pick((uint64_t)(mo / a));
  }
  void alignedCtor(void* p, const I* n, int x, int kind, int a, int mo, int r, Yes) {
    const I la = a, lm = mo, lr = r;
    if (kind == 0) C::ctor(p, n, il::align, la);
    else if (kind == 1) C::ctor(p, n, il::align, la, lr, lm);
    else if (kind == 2) C::ctor(p, n, El<T>::make(x), il::align, la);
    else C::ctor(p, n, El<T>::make(x), il::align, la, lr, lm);
  }
  void alignedCtor(void*, const I*, int, int, int, int, int, No) {}

  // initializer lists
  bool listCtor(int k, No) { return emptyCtor(k); }
  bool listCtor(int k, Yes) { return listCtorD(k, std::integral_constant<int, D>()); }
  bool listCtorD(int k, std::integral_constant<int, 2>) {
    void* p = h[k].p;
    typedef std::initializer_list<T> Line;
    m[k].v.clear();
    const int none = one(3) ? 1 + (int)pick(3) : 0;  // lists without elements
    if (none) {
      m[k].n[X::fortran ? 1 : 0] = none - 1;
      m[k].n[X::fortran ? 0 : 1] = 0;
      return sut("Array(empty list)", [&] {
        if (none == 1) new (p) A{il::value, std::initializer_list<Line>{}};
        else if (none == 2) new (p) A{il::value, std::initializer_list<Line>{Line{}}};
        else new (p) A{il::value, std::initializer_list<Line>{Line{}, Line{}}};
      });
    }
    const int x = value(), y = value(), z = value(), t = value(), u = value(), v = value();
    auto E = [](int q) { return El<T>::make(q); };
    // the first index runs over the outer list of a C array, over the inner one of a D array
    m[k].v.clear();
    const I sh[2] = {X::fortran ? 3 : 2, X::fortran ? 2 : 3};
    m[k].n[0] = sh[0];
    m[k].n[1] = sh[1];
    const int l[2][3] = {{x, y, z}, {t, u, v}};
    for (I i = 0; i < sh[0]; ++i)
      for (I j = 0; j < sh[1]; ++j) m[k].v.push_back(X::fortran ? l[j][i] : l[i][j]);
    return sut("Array(list)", [&] { new (p) A{il::value, {{E(x), E(y), E(z)}, {E(t), E(u), E(v)}}}; });
  }
  bool listCtorD(int k, std::integral_constant<int, 3>) {
    void* p = h[k].p;
    typedef std::initializer_list<T> Line;
    typedef std::initializer_list<Line> Page;
    m[k].v.clear();
    const int none = one(3) ? 1 + (int)pick(4) : 0;  // lists without elements
    if (none) {
      m[k].n[X::fortran ? 2 : 0] = none - 1 == 3 ? 1 : none - 1;
      m[k].n[1] = none == 4 ? 2 : 0;
      m[k].n[X::fortran ? 0 : 2] = 0;
      return sut("Array(empty list)", [&] {
        if (none == 1) new (p) A{il::value, std::initializer_list<Page>{}};
        else if (none == 2) new (p) A{il::value, std::initializer_list<Page>{Page{}}};
        else if (none == 3) new (p) A{il::value, std::initializer_list<Page>{Page{}, Page{}}};
        else new (p) A{il::value, std::initializer_list<Page>{Page{Line{}, Line{}}}};
      });
    }
    int q[8];
    for (int i = 0; i < 8; ++i) q[i] = value();
    auto E = [](int z) { return El<T>::make(z); };
    m[k].v.clear();
    m[k].n[0] = X::fortran ? 1 : 4;
    m[k].n[1] = 2;
    m[k].n[2] = X::fortran ? 4 : 1;
    for (I i = 0; i < m[k].n[0]; ++i)
      for (I j = 0; j < 2; ++j)
        for (I l = 0; l < m[k].n[2]; ++l) m[k].v.push_back(q[X::fortran ? 2 * l + j : 2 * i + j]);
    return sut("Array(list)", [&] {
      new (p) A{il::value, {{{E(q[0])}, {E(q[1])}}, {{E(q[2])}, {E(q[3])}}, {{E(q[4])}, {E(q[5])}}, {{E(q[6])}, {E(q[7])}}}};
    });
  }
  bool emptyCtor(int k) {
    void* p = h[k].p;
    m[k] = Model();
    return sut("Array()", [&] { new (p) A{}; });
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    mod[k] = res[k] = grain[k] = 0;
    Model& w = m[k];
    w = Model();
    const int fresh = triv() ? kUnknown : kDefault;
    int kind = (int)pick(triv() && X::aligned ? 10 : 8);
    if (al) kind = one(6) ? 0 : 8;
    I n[kMaxD] = {0, 0, 0, 0};
    switch (kind) {
      case 0: case 1: shapePick(n); reshape(w, n, fresh); return sut("Array(n)", [&] { C::ctor(p, n); });
      case 2: case 3: { shapePick(n); const int x = value(); reshape(w, n, x); if (X::fill && one(2)) return emplaceCtor(p, n, x, one(2), Flag<X::fill>()); return sut("Array(n, x)", [&] { C::ctor(p, n, El<T>::make(x)); }); }
      case 4: return emptyCtor(k);
      case 5: return listCtor(k, Flag<X::list>());
      case 6: case 7: {
        const int j = other(k);
        if (j < 0) return emptyCtor(k);
        w = m[j];
        mod[k] = mod[j];
        res[k] = res[j];
        grain[k] = grain[j];
        if (kind == 6) return sut("copy construction", [&] { new (p) A(*h[j]); });
        return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
      }
      default: {
        shapePick(n);
        const int x = value(), ck = (int)pick(4);
        int a, mo, r;
        drawAlign(a, mo, r);
        if (ck == 0 || ck == 2) { mo = a; r = 0; }
        reshape(w, n, ck >= 2 ? x : kUnknown);
        mod[k] = mo;
        res[k] = r;
        grain[k] = a;
        return sut("aligned construction", [&] { alignedCtor(p, n, x, ck, a, mo, r, Flag < X::aligned && El<T>::trivial > ()); });
      }
    }
  }
  void newShape(int k, I* n) {
    const Model& w = m[k];
    switch (pick(5)) {
      case 0: shapePick(n); break;
      case 1:  // one dimension
        for (int d = 0; d < D; ++d) n[d] = w.n[d];
        n[pick(D)] = (I)pick(6);
        break;
      case 2:  // within the capacity
        for (int d = 0; d < D; ++d) n[d] = (I)pick((uint64_t)h[k]->capacity(d) + 1);
        break;
      case 3:
        for (int d = 0; d < D; ++d) n[d] = (I)pick((uint64_t)w.n[d] + 1);
        break;
      default:
        for (int d = 0; d < D; ++d) n[d] = w.n[d] + (I)pick(3);
        break;
    }
    if (count(n) > 900)
      for (int d = 0; d < D; ++d) n[d] = n[d] > 5 ? 5 : n[d];
  }
  bool fillResize(int k, const I* n, int x, bool emplace, Yes) {
    A& a = *h[k];
    I at[kMaxD] = {0, 0, 0, 0};
    bool own = !emplace && one(3);
    for (int d = 0; d < D; ++d) {
      if (m[k].n[d] == 0) own = false;
      else at[d] = (I)pick((uint64_t)m[k].n[d]);
    }
    if (own && m[k].v[index(m[k].n, at)] != kUnknown) {
      reshape(m[k], n, m[k].v[index(m[k].n, at)]);
      return sut("Resize(n, own element)", [&] { const T& e = C::at(a, at); C::resize(a, n, e); });
    }
    reshape(m[k], n, x);
    const bool moved = emplace && one(2);
    if (moved) return sut("Resize(n, emplace, moved x)", [&] { T e = El<T>::make(x); C::resize(a, n, il::emplace, std::move(e)); });
    if (emplace) return sut("Resize(n, emplace, x)", [&] { const T e = El<T>::make(x); C::resize(a, n, il::emplace, e); });
    return sut("Resize(n, x)", [&] { const T e = El<T>::make(x); C::resize(a, n, e); });
  }
  bool fillResize(int, const I*, int, bool, No) { return true; }
  bool emplaceCtor(void* p, const I* n, int x, bool moved, Yes) {
    return sut("Array(n, emplace, x)", [&] { T e = El<T>::make(x); if (moved) C::ctor(p, n, il::emplace, std::move(e)); else C::ctor(p, n, il::emplace, e); });
  }
  bool emplaceCtor(void*, const I*, int, bool, No) { return true; }
  bool setAll(int k, int x, Yes) {
    A& a = *h[k];
    m[k].v.assign(m[k].v.size(), x);
    return sut("Set", [&] { const T e = El<T>::make(x); a.Set(e); });
  }
  bool setAll(int, int, No) { return true; }

  bool views(int, No) { return true; }
  bool views(int k, Yes) { return viewsOf(k, (A*)nullptr); }
  bool viewsOf(int k, il::Array2D<T>*) {
    A& a = *h[k];
    Model& w = m[k];
    if (w.v.empty()) {
      I s0 = -1, s1 = -1, t0 = -1, t1 = -1;
      if (!sut("view of an empty array", [&] {
            const A& r = a;
            il::Array2DView<T> v = r.view();
            il::Array2DEdit<T> u = a.Edit();
            s0 = v.size(0); s1 = v.size(1); t0 = u.size(0); t1 = u.size(1);
          })) return false;
      SIM_CHECK(s0 == w.n[0] && s1 == w.n[1] && t0 == w.n[0] && t1 == w.n[1], "view-size", "a view has the wrong size");
      return true;
    }
    const int b0 = (int)pick((uint64_t)w.n[0]), e0 = b0 + 1 + (int)pick((uint64_t)w.n[0] - (uint64_t)b0);
    const int b1 = (int)pick((uint64_t)w.n[1]), e1 = b1 + 1 + (int)pick((uint64_t)w.n[1] - (uint64_t)b1);
    const int i0 = b0 + (int)pick((uint64_t)(e0 - b0)), i1 = b1 + (int)pick((uint64_t)(e1 - b1));
    const I at[2] = {i0, i1};
    const int x = w.v[index(w.n, at)];
    int got = kUnknown;
    I s0 = -1, s1 = -1;
    // a part of the part that holds the element
    const int c0 = b0 + (int)pick((uint64_t)(i0 - b0 + 1)), d0 = i0 + 1 + (int)pick((uint64_t)(e0 - i0));
    const int c1 = b1 + (int)pick((uint64_t)(i1 - b1 + 1)), d1 = i1 + 1 + (int)pick((uint64_t)(e1 - i1));
    const int y = value();
    switch (pick(8)) {
      case 5:
        w.v[index(w.n, at)] = y;
        if (!sut("Edit of an Edit", [&] {
              il::Array2DEdit<T> u = a.Edit();
              il::Array2DEdit<T> v = u.Edit(il::Range{b0, e0}, il::Range{b1, e1}).Edit(il::Range{c0 - b0, d0 - b0}, il::Range{c1 - b1, d1 - b1});
              s0 = v.size(0); s1 = v.size(1);
              v(i0 - c0, i1 - c1) = El<T>::make(y);
            })) return false;
        SIM_CHECK(s0 == d0 - c0 && s1 == d1 - c1, "view-size", "a view has the wrong size");
        return check(k, "edit-of-edit");
      case 6:
        if (!sut("view of a view", [&] {
              const A& r = a;
              il::Array2DView<T> v = r.view(il::Range{b0, e0}, il::Range{b1, e1}).view(il::Range{c0 - b0, d0 - b0}, il::Range{c1 - b1, d1 - b1});
              s0 = v.size(0); s1 = v.size(1);
              if (x != kUnknown) got = El<T>::get(v(i0 - c0, i1 - c1));
            })) return false;
        SIM_CHECK(s0 == d0 - c0 && s1 == d1 - c1, "view-size", "a view has the wrong size");
        break;
      case 0:
        if (!sut("view", [&] { const A& r = a; il::Array2DView<T> v = r.view(il::Range{b0, e0}, il::Range{b1, e1}); s0 = v.size(0); s1 = v.size(1); if (x != kUnknown) got = El<T>::get(v(i0 - b0, i1 - b1)); })) return false;
        SIM_CHECK(s0 == e0 - b0 && s1 == e1 - b1, "view-size", "a view has the wrong size");
        break;
      case 1:
        if (!sut("view of a column", [&] { const A& r = a; il::ArrayView<T> v = r.view(il::Range{b0, e0}, (I)i1); s0 = v.size(); if (x != kUnknown) got = El<T>::get(v[i0 - b0]); })) return false;
        SIM_CHECK(s0 == e0 - b0, "view-size", "a view has the wrong size");
        break;
      case 2:
        if (!sut("view", [&] { const A& r = a; il::Array2DView<T> v = r.view(); s0 = v.size(0); s1 = v.size(1); if (x != kUnknown) got = El<T>::get(v(i0, i1)); })) return false;
        SIM_CHECK(s0 == w.n[0] && s1 == w.n[1], "view-size", "a view has the wrong size");
        break;
      case 3:
        w.v[index(w.n, at)] = y;
        return sut("Edit", [&] { il::Array2DEdit<T> v = a.Edit(il::Range{b0, e0}, il::Range{b1, e1}); v(i0 - b0, i1 - b1) = El<T>::make(y); }) && check(k, "edit-range");
      case 4:
        w.v[index(w.n, at)] = y;
        return sut("Edit of a column", [&] { il::ArrayEdit<T> v = a.Edit(il::Range{b0, e0}, (I)i1); v[i0 - b0] = El<T>::make(y); }) && check(k, "edit-column");
      default:
        w.v[index(w.n, at)] = y;
        return sut("Edit", [&] { il::Array2DEdit<T> v = a.Edit(); v(i0, i1) = El<T>::make(y); }) && check(k, "edit");
    }
    SIM_CHECK(x == kUnknown || got == x, "view-element", "an element read through a view is %d instead of %d", got, x);
    return true;
  }
  bool viewsOf(int k, il::Array2C<T>*) {
    A& a = *h[k];
    Model& w = m[k];
    if (w.v.empty()) {
      I s0 = -1, s1 = -1, t0 = -1, t1 = -1;
      if (!sut("view of an empty array", [&] {
            const A& r = a;
            il::Array2CView<T> v = r.view();
            il::Array2CEdit<T> u = a.Edit();
            s0 = v.size(0); s1 = v.size(1); t0 = u.size(0); t1 = u.size(1);
          })) return false;
      SIM_CHECK(s0 == w.n[0] && s1 == w.n[1] && t0 == w.n[0] && t1 == w.n[1], "view-size", "a view has the wrong size");
      return true;
    }
    const int b0 = (int)pick((uint64_t)w.n[0]), e0 = b0 + 1 + (int)pick((uint64_t)w.n[0] - (uint64_t)b0);
    const int b1 = (int)pick((uint64_t)w.n[1]), e1 = b1 + 1 + (int)pick((uint64_t)w.n[1] - (uint64_t)b1);
    const int i0 = b0 + (int)pick((uint64_t)(e0 - b0)), i1 = b1 + (int)pick((uint64_t)(e1 - b1));
    const I at[2] = {i0, i1};
    const int x = w.v[index(w.n, at)];
    int got = kUnknown;
    I s0 = -1, s1 = -1;
    // a part of the part that holds the element
    const int c0 = b0 + (int)pick((uint64_t)(i0 - b0 + 1)), d0 = i0 + 1 + (int)pick((uint64_t)(e0 - i0));
    const int c1 = b1 + (int)pick((uint64_t)(i1 - b1 + 1)), d1 = i1 + 1 + (int)pick((uint64_t)(e1 - i1));
    const int y = value();
    switch (pick(5)) {
      case 3:
        w.v[index(w.n, at)] = y;
        if (!sut("Edit of an Edit", [&] {
              il::Array2CEdit<T> u = a.Edit();
              il::Array2CEdit<T> v = u.Edit(il::Range{b0, e0}, il::Range{b1, e1}).Edit(il::Range{c0 - b0, d0 - b0}, il::Range{c1 - b1, d1 - b1});
              s0 = v.size(0); s1 = v.size(1);
              v(i0 - c0, i1 - c1) = El<T>::make(y);
            })) return false;
        SIM_CHECK(s0 == d0 - c0 && s1 == d1 - c1, "view-size", "a view has the wrong size");
        return check(k, "edit-of-edit");
      case 0:
        if (!sut("view", [&] { const A& r = a; il::Array2CView<T> v = r.view(il::Range{b0, e0}, il::Range{b1, e1}); s0 = v.size(0); s1 = v.size(1); if (x != kUnknown) got = El<T>::get(v(i0 - b0, i1 - b1)); })) return false;
        SIM_CHECK(s0 == e0 - b0 && s1 == e1 - b1, "view-size", "a view has the wrong size");
        break;
      case 1:
        if (!sut("view of a row", [&] { const A& r = a; il::ArrayView<T> v = r.view((I)i0, il::Range{b1, e1}); s0 = v.size(); if (x != kUnknown) got = El<T>::get(v[i1 - b1]); })) return false;
        SIM_CHECK(s0 == e1 - b1, "view-size", "a view has the wrong size");
        break;
      case 2:
        if (!sut("view", [&] { const A& r = a; il::Array2CView<T> v = r.view(); s0 = v.size(0); s1 = v.size(1); if (x != kUnknown) got = El<T>::get(v(i0, i1)); })) return false;
        SIM_CHECK(s0 == w.n[0] && s1 == w.n[1], "view-size", "a view has the wrong size");
        break;
      default:
        w.v[index(w.n, at)] = y;
        return sut("Edit", [&] { il::Array2CEdit<T> v = a.Edit(); v(i0, i1) = El<T>::make(y); }) && check(k, "edit");
    }
    SIM_CHECK(x == kUnknown || got == x, "view-element", "an element read through a view is %d instead of %d", got, x);
    return true;
  }
  template <typename Q>
  bool viewsOf(int, Q*) { return true; }

  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k) && check(k, "construct");
    A& a = *h[k];
    Model& w = m[k];
    const int fresh = triv() ? kUnknown : kDefault;
    I n[kMaxD] = {0, 0, 0, 0};
    switch (pick(14)) {
      case 0: case 1: case 2: newShape(k, n); reshape(w, n, fresh); return sut("Resize", [&] { C::resize(a, n); }) && check(k, "resize");
      case 3: case 4: {
        if (!X::fill) { newShape(k, n); reshape(w, n, fresh); return sut("Resize", [&] { C::resize(a, n); }) && check(k, "resize"); }
        newShape(k, n);
        const int x = value();
        return fillResize(k, n, x, pick(2) == 1, Flag<X::fill>()) && check(k, "resize-fill");
      }
      case 5: {
        newShape(k, n);
        if (!sut("Reserve", [&] { C::reserve(a, n); })) return false;
        for (int d = 0; d < D; ++d) {
          I c = 0;
          if (!sut("capacity", [&] { c = a.capacity(d); })) return false;
          SIM_CHECK(c >= n[d], "reserve-too-small", "Reserve left capacity(%d) at %ld instead of %ld", d, (long)c, (long)n[d]);
        }
        return check(k, "reserve");
      }
      case 6: case 7: {
        if (w.v.empty()) return true;
        I i[kMaxD] = {0, 0, 0, 0};
        for (int d = 0; d < D; ++d) i[d] = (I)pick((uint64_t)w.n[d]);
        const int x = value();
        w.v[index(w.n, i)] = x;
        return sut("write", [&] { C::at(a, i) = El<T>::make(x); }) && check(k, "write");
      }
      case 8: {  // write everything
        if (w.v.empty()) return true;
        std::vector<int> x(w.v.size());
        const int s = value();
        for (size_t q = 0; q < x.size(); ++q) x[q] = (int)((s + 7 * q) % kMaxV);
        w.v = x;
        const int* xs = x.data();
        return sut("write all", [&] {
          I i[kMaxD] = {0, 0, 0, 0};
          size_t q = 0;
          do C::at(a, i) = El<T>::make(xs[q++]);
          while (next(w.n, i));
        }) && check(k, "write-all");
      }
      case 9: case 10: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) { w = m[j]; mod[k] = mod[j]; res[k] = res[j]; grain[k] = grain[j]; }
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; }) && check(k, "copy-assign");
      }
      case 11: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k) && check(k, "self-move");
        w = m[j];
        mod[k] = mod[j];
        res[k] = res[j];
        grain[k] = grain[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j) && check(k, "move-assign");
      }
      case 12:
        if (one(3)) {
          const int x = value();
          return setAll(k, x, Flag<X::set>()) && check(k, "set");
        }
        return views(k, Flag<X::views>());
      default:
        return h[k].destroy("destruction") && construct(k) && check(k, "construct");
    }
  }
  void run() {
    for (int k = 0; k < kSlots; ++k) mod[k] = res[k] = grain[k] = 0;
    al = isProp("C14");
    const int ops = 1 + (int)pick(thorough() ? 60 : 24);
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok) ok = checkAll("all");
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
template <template <typename> class Arr, typename T, int D>
void go(const char* name) {
  evt(name, El<T>::name());
  World<Arr, T, D> w;
  w.run();
}
}  // namespace

// Each kind is compiled apart (-DND=k); without ND, the dispatch.
#define KIND(k, Arr, D)                                                     \
  void nd_##k(int e) {                                                      \
    if (e == 0) go<il::Arr, Obj, D>(#Arr);                                  \
    else if (e == 1) go<il::Arr, int, D>(#Arr);                             \
    else if (e == 2) go<il::Arr, il::String, D>(#Arr);                      \
    else go<il::Arr, double, D>(#Arr);                                      \
  }
#ifdef ND
#if ND == 0
KIND(0, Array2D, 2)
#elif ND == 1
KIND(1, Array2C, 2)
#elif ND == 2
KIND(2, Array3D, 3)
#elif ND == 3
KIND(3, Array3C, 3)
#elif ND == 4
KIND(4, Array4D, 4)
#else
KIND(5, Array4C, 4)
#endif
#else
void nd_0(int);
void nd_1(int);
void nd_2(int);
void nd_3(int);
void nd_4(int);
void nd_5(int);
void world_nd() {
  static void (*const kinds[])(int) = {nd_0, nd_1, nd_2, nd_3, nd_4, nd_5};
  drawMemory(refusals());
  if (isProp("C14")) {
    if (!t_ctx.stream) g_alloc.pages = true;
    const uint64_t k = pick(4);
    kinds[k](pick(2) ? 3 : 1);
    return;
  }
  const uint64_t k = pick(6);
  kinds[k]((int)pick(4));
}
#endif
