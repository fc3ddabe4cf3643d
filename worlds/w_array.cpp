// Dynamic arrays (C11), and their alignment (C14).
#include <il/Array.h>

#include "seq.h"

using namespace seq;

namespace {
template <typename T>
struct World {
  typedef il::Array<T> A;
  typedef std::vector<int> M;
  static const int kSlots = 3;
  Holder<A> h[kSlots];
  M m[kSlots];
  int mod[kSlots], res[kSlots];  // alignment asked for (0: none)
  bool al = false;               // alignment is what is being decided

  static bool triv() { return El<T>::trivial; }

  // ------------------------------------------------------------ observation
  bool check(int k, const char* what) {
    A& a = *h[k];
    il::int_t n = -1, c = -1;
    const T *d = nullptr, *b = nullptr, *e = nullptr;
    if (!sut("size", [&] { const A& r = a; n = r.size(); c = r.capacity(); d = r.data(); b = r.begin(); e = r.end(); })) return false;
    evt(what, k, n);
    SIM_CHECK(n == (il::int_t)m[k].size(), "wrong-size", "%s: size %ld instead of %zu", what, (long)n, m[k].size());
    SIM_CHECK(c >= n, "capacity-below-size", "%s: capacity %ld below size %ld", what, (long)c, (long)n);
    SIM_CHECK(n == 0 || (b == d && e == d + n), "wrong-range", "%s: begin/end do not span the elements", what);
    checkBlock(what, d, c, sizeof(T), h[k].p, sizeof(A));
    if (al && mod[k] && c > 0) {
      SIM_CHECK((il::int_t)((size_t)d % (size_t)mod[k]) == res[k], "misaligned",
                "%s: the first element lies at %zu modulo %d instead of %d", what, (size_t)d % (size_t)mod[k], mod[k], res[k]);
    }
    std::vector<int> got((size_t)n, kUnknown);
    int* g = got.data();
    const int* w = m[k].data();
    int last = kUnknown;
    if (!sut("reading", [&] {
          const A& r = a;
          for (il::int_t i = 0; i < n; ++i)
            if (w[i] != kUnknown) g[i] = El<T>::get(r[i]);
          if (n > 0 && w[n - 1] != kUnknown) last = El<T>::get(r.back());
        })) return false;
    compare(what, got, m[k]);
    if (n > 0) SIM_CHECK(last == m[k].back() || m[k].back() == kUnknown, "wrong-element", "%s: back() differs", what);
    for (int j = 0; j < kSlots; ++j) {
      if (j == k || !h[j].live()) continue;
      const char *p = (const char*)d, *q = (const char*)h[j]->data();
      const il::int_t cj = h[j]->capacity();
      SIM_CHECK(c == 0 || cj == 0 || p + c * sizeof(T) <= q || q + cj * sizeof(T) <= p, "shared-storage",
                "%s: two arrays share storage", what);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  // The value of a moved-from array is not specified, but it is a valid array.
  bool resync(int k) {
    il::int_t n = 0;
    if (!sut("size", [&] { n = h[k]->size(); })) return false;
    SIM_CHECK(n >= 0 && n < 100000, "moved-from-invalid", "a moved-from array has size %ld", (long)n);
    m[k].assign((size_t)n, kUnknown);
    mod[k] = 0;
    return true;
  }
  void drawAlign(int& a, int& r) {
    const int s = (int)sizeof(T);
    // a multiple of alignof(T), not always a power of two
    switch (pick(4)) {
      case 0: a = s * (1 << pick(5)); break;
      case 1: a = 64; break;
      case 2: a = s * pickRange(1, 20); break;
      default: a = pick(2) ? 4096 : 128; break;
    }
    r = pick(2) ? 0 : s * (int)pick((uint64_t)(a / s));
  }
  int sizePick() {
    switch (pick(4)) {
      case 0: return (int)pick(4);
      case 1: return (int)pick(9);
      case 2: return (int)pick(20);
      default:
        if (t_ctx.large && pick(3) == 0) {  // around the size, often the capacity, of an array that is there
          const int near = (int)m[pick(kSlots)].size() - 2 + (int)pick(6);
          if (near >= 0) return near;
        }
        return scaled((int)pick(40), 3000);
    }
  }

  // aligned constructors only for trivial types
  template <bool B>
  typename std::enable_if<B>::type alignedCtor(void* p, int n, int x, int kind, int a, int mo, int r) {
    if (kind == 0) new (p) A{(il::int_t)n, il::align, (il::int_t)a};
    else if (kind == 1) new (p) A{(il::int_t)n, il::align, (il::int_t)a, (il::int_t)r, (il::int_t)mo};
    else if (kind == 2) new (p) A{(il::int_t)n, El<T>::make(x), il::align, (il::int_t)a};
    else new (p) A{(il::int_t)n, El<T>::make(x), il::align, (il::int_t)a, (il::int_t)r, (il::int_t)mo};
  }
  template <bool B>
  typename std::enable_if<!B>::type alignedCtor(void*, int, int, int, int, int, int) {}

  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    mod[k] = res[k] = 0;
    M& w = m[k];
    const int fresh = triv() ? kUnknown : kDefault;
    int kind = (int)pick(triv() ? 10 : 8);
    if (al) kind = one(6) ? 0 : 8 + (int)pick(2);
    switch (kind) {
      case 0: { const int n = sizePick(); w.assign((size_t)n, fresh); return sut("Array(n)", [&] { new (p) A{(il::int_t)n}; }); }
      case 1: w.clear(); return sut("Array()", [&] { new (p) A{}; });
      case 2: { const int n = sizePick(), x = value(); w.assign((size_t)n, x); return sut("Array(n, x)", [&] { new (p) A{(il::int_t)n, El<T>::make(x)}; }); }
      case 3: { const int n = sizePick(), x = value(); const bool moved = one(2); w.assign((size_t)n, x); return sut("Array(n, emplace, x)", [&] { T e = El<T>::make(x); if (moved) new (p) A{(il::int_t)n, il::emplace, std::move(e)}; else new (p) A{(il::int_t)n, il::emplace, e}; }); }
      case 4: {
        const int x = value(), y = value(), z = value();
        switch (pick(3)) {
          case 0: w = M{x, y, z}; return sut("Array(list)", [&] { new (p) A{il::value, {El<T>::make(x), El<T>::make(y), El<T>::make(z)}}; });
          case 1: w = M{x}; return sut("Array(list)", [&] { new (p) A{il::value, {El<T>::make(x)}}; });
          default: w.clear(); return sut("Array(list)", [&] { new (p) A{il::value, std::initializer_list<T>{}}; });
        }
      }
      case 5: case 6: case 7: {
        int j = other(k);
        if (j < 0) { w.clear(); return sut("Array()", [&] { new (p) A{}; }); }
        if (kind == 5) {
          w = m[j];
          mod[k] = mod[j];
          res[k] = res[j];
          return sut("copy construction", [&] { new (p) A(*h[j]); });
        }
        if (kind == 6) {
          w = m[j];
          mod[k] = mod[j];
          res[k] = res[j];
          return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
        }
        w = m[j];
        const bool part = !w.empty() && pick(2);
        int b = 0, e = (int)w.size();
        if (part) { b = (int)pick(w.size()); e = b + (int)pick(w.size() - (size_t)b + 1); w = M(w.begin() + b, w.begin() + e); }
        return sut("Array(view)", [&] {
          const A& s = *h[j];
          if (part) new (p) A(s.view(il::Range{b, e}));
          else new (p) A(s.view());
        });
      }
      default: {
        const int n = sizePick(), x = value();
        int a, mo, r, ck = (int)pick(4);
        drawAlign(mo, r);
        const int s = (int)alignof(T);
        // alignment divides the modulus and the residue
        a = s;
        for (int t = mo; t > s; t -= s)
          if (mo % t == 0 && r % t == 0) { a = t; break; }
        if (ck == 0 || ck == 2) { a = mo; r = 0; }
        w.assign((size_t)n, ck >= 2 ? x : kUnknown);
        mod[k] = mo;
        res[k] = r;
        return sut("aligned construction", [&] { alignedCtor<El<T>::trivial>(p, n, x, ck, a, mo, r); });
      }
    }
  }
  int other(int k) {
    int c[kSlots], n = 0;
    for (int j = 0; j < kSlots; ++j)
      if (j != k && h[j].live()) c[n++] = j;
    return n ? c[pick((uint64_t)n)] : -1;
  }
  void fill(M& w, int n, int x) { w.resize((size_t)n, x); }

  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k) && check(k, "construct");
    A& a = *h[k];
    M& w = m[k];
    const int n = (int)w.size();
    const int fresh = triv() ? kUnknown : kDefault;
    switch (pick(24)) {
      case 0: case 1: { const int x = value(); w.push_back(x); return sut("Append(x)", [&] { const T e = El<T>::make(x); a.Append(e); }) && check(k, "append"); }
      case 2: { const int x = value(); w.push_back(x); return sut("Append(T&&)", [&] { a.Append(El<T>::make(x)); }) && check(k, "append-move"); }
      case 3: { const int x = value(); w.push_back(x); return sut("Append(emplace)", [&] { const T e = El<T>::make(x); a.Append(il::emplace, e); }) && check(k, "append-emplace"); }
      case 4: case 5: {  // one of its own elements
        if (n == 0) return true;
        const int i = one(2) ? n - 1 : (int)pick((uint64_t)n), x = w[(size_t)i];
        if (x == kUnknown && !triv()) return true;
        switch (pick(3)) {
          case 0: w.push_back(x); return sut("Append(own element)", [&] { const T& e = a[i]; a.Append(e); }) && check(k, "append-own");
          case 1:
            w.push_back(x);
            if (!triv()) w[(size_t)i] = kUnknown;
            return sut("Append(moved own element)", [&] { a.Append(std::move(a[i])); }) && check(k, "append-own-moved");
          default: w.push_back(x); return sut("Append(emplace, own element)", [&] { const T& e = a[i]; a.Append(il::emplace, e); }) && check(k, "append-own-emplace");
        }
      }
      case 6: case 7: {
        const int r = resizePick(n, k);
        fill(w, r, fresh);
        return sut("Resize(n)", [&] { a.Resize(r); }) && check(k, "resize");
      }
      case 8: {
        const int r = resizePick(n, k), own = n > 0 && one(3) ? (int)pick((uint64_t)n) : -1;
        if (own >= 0 && w[(size_t)own] != kUnknown) {
          fill(w, r, w[(size_t)own]);
          return sut("Resize(n, own element)", [&] { const T& e = a[own]; a.Resize(r, e); }) && check(k, "resize-own");
        }
        const int x = value();
        fill(w, r, x); return sut("Resize(n, x)", [&] { const T e = El<T>::make(x); a.Resize(r, e); }) && check(k, "resize-fill"); }
      case 9: { const int r = resizePick(n, k), x = value(); const bool moved = one(2); fill(w, r, x); return sut("Resize(n, emplace, x)", [&] { T e = El<T>::make(x); if (moved) a.Resize(r, il::emplace, std::move(e)); else a.Resize(r, il::emplace, e); }) && check(k, "resize-emplace"); }
      case 10: case 11: {
        const int r = resizePick(n, k);
        if (!sut("Reserve", [&] { a.Reserve(r); })) return false;
        il::int_t c = 0;
        if (!sut("capacity", [&] { c = a.capacity(); })) return false;
        SIM_CHECK(c >= r, "reserve-too-small", "Reserve(%d) left a capacity of %ld", r, (long)c);
        return check(k, "reserve");
      }
      case 12: {
        if (n > 0 && pick(3) == 0) {
          const int i = (int)pick((uint64_t)n), x = w[(size_t)i];
          if (x == kUnknown) return true;
          w.assign((size_t)n, x);
          return sut("Set(own element)", [&] { const T& e = a[i]; a.Set(e); }) && check(k, "set-own");
        }
        const int x = value();
        w.assign((size_t)n, x);
        return sut("Set", [&] { const T e = El<T>::make(x); a.Set(e); }) && check(k, "set");
      }
      case 13: case 14: {
        if (n == 0) return true;
        const int i = (int)pick((uint64_t)n), x = value();
        switch (pick(6)) {
          case 0: w[(size_t)i] = x; return sut("write", [&] { a[i] = El<T>::make(x); }) && check(k, "write");
          case 1: w.back() = x; return sut("Back", [&] { a.Back() = El<T>::make(x); }) && check(k, "back");
          case 2: w[(size_t)i] = x; return sut("Data", [&] { a.Data()[i] = El<T>::make(x); }) && check(k, "data");
          case 3: w[(size_t)i] = x; return sut("Edit", [&] { il::ArrayEdit<T> e = a.Edit(); e[i] = El<T>::make(x); }) && check(k, "edit");
          case 4: {
            const int b = (int)pick((uint64_t)i + 1);
            w[(size_t)i] = x;
            return sut("Edit(range)", [&] { il::ArrayEdit<T> e = a.Edit(il::Range{b, n}); e[i - b] = El<T>::make(x); }) && check(k, "edit-range");
          }
          default: {
            w.assign((size_t)n, x);
            return sut("iteration", [&] { const T v = El<T>::make(x); for (T* q = a.begin(); q != a.end(); ++q) *q = v; }) && check(k, "iterate");
          }
        }
      }
      case 15: case 16: {  // copy assignment
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) { w = m[j]; mod[k] = mod[j]; res[k] = res[j]; }
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; }) && check(k, "copy-assign") && (j == k || check(j, "copied-from"));
      }
      case 17: {  // move assignment
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k) && check(k, "self-move");
        w = m[j];
        mod[k] = mod[j];
        res[k] = res[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j) && check(k, "move-assign") && check(j, "moved-from");
      }
      case 18: return h[k].destroy("destruction");
      case 19: {  // view
        int got = kUnknown;
        if (n == 0) return true;
        const int b = (int)pick((uint64_t)n), e = b + 1 + (int)pick((uint64_t)(n - b)), i = (int)pick((uint64_t)(e - b));
        il::int_t vs = -1;
        const int x = w[(size_t)(b + i)];
        if (!sut("view", [&] {
              const A& r = a;
              il::ArrayView<T> v = r.view(il::Range{b, e});
              vs = v.size();
              if (x != kUnknown) got = El<T>::get(v[i]);
            })) return false;
        SIM_CHECK(vs == e - b, "view-size", "a view of [%d, %d) has size %ld", b, e, (long)vs);
        SIM_CHECK(x == kUnknown || got == x, "view-element", "element %d of a view is %d instead of %d", i, got, x);
        return true;
      }
      case 20: {  // many appends
        const int c = 1 + (int)pick(12);
        for (int t = 0; t < c; ++t) {
          const int x = value();
          w.push_back(x);
          if (!sut("Append(x)", [&] { const T e = El<T>::make(x); a.Append(e); })) return false;
        }
        return check(k, "appends");
      }
      default: {
        if (one(2)) return construct_over(k);
        const int r = (int)pick((uint64_t)n + 1);
        w.resize((size_t)r);
        return sut("Resize(n)", [&] { a.Resize(r); }) && check(k, "shrink");
      }
    }
  }
  bool construct_over(int k) { return h[k].destroy("destruction") && construct(k) && check(k, "construct"); }
  int resizePick(int n, int k) {
    const int c = (int)h[k]->capacity();
    switch (pick(7)) {
      case 0: return sizePick();
      case 1: return n;
      case 2: return (int)pick((uint64_t)n + 1);
      case 3: return c;
      case 4: return c + 1;
      case 5: {  // around what another array has room for
        const int j = (int)pick(kSlots);
        const int near = h[j].live() ? (int)h[j]->capacity() - 1 + (int)pick(4) : 0;
        return near < 0 || near > 20000 ? n : near;
      }
      default: return n + (int)pick(6);
    }
  }
  void run() {
    for (int k = 0; k < kSlots; ++k) mod[k] = res[k] = 0;
    al = isProp("C14");
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
template <typename T>
void go() {
  evt("element-type", El<T>::name());
  World<T> w;
  w.run();
}
}  // namespace

void world_array() {
  drawMemory(refusals());
  if (isProp("C14")) {
    if (!t_ctx.stream) g_alloc.pages = true;
    switch (pick(5)) {
      case 0: go<double>(); break;
      case 1: go<int>(); break;
      case 2: go<unsigned char>(); break;
      case 3: go<short>(); break;
      default: go<float>(); break;
    }
    return;
  }
  switch (pick(5)) {
    case 0: go<int>(); break;
    case 1: go<Obj>(); break;
    case 2: go<il::String>(); break;
    case 3: go<double>(); break;
    default: go<unsigned char>(); break;
  }
}
