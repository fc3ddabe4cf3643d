// Strings (C17).
#include <il/String.h>
#include <il/container/string/algorithmString.h>

#include "seq.h"

using namespace seq;

namespace {
typedef std::string B;
const int kSlots = 3;

// A source buffer of exactly n bytes (reading past it is an error).
struct Src {
  char* p;
  il::int_t n;
  explicit Src(const B& b, bool zero = false) : p{(char*)rawAlloc(b.size() + 1)}, n{(il::int_t)b.size()} {
    if (!zero) { rawFree(p); p = (char*)rawAlloc(b.size() ? b.size() : 1); }
    std::memcpy(p, b.data(), b.size());
    if (zero) p[n] = 0;
  }
  ~Src() { rawFree(p); }
  Src(const Src&) = delete;
};
int typeOf(il::StringType t) { return (int)(unsigned char)t; }
const int kAscii = 0x00, kUtf8 = 0x20, kByte = 0x60;

B utf8(int r) {
  B s;
  if (r < 0x80) s += (char)r;
  else if (r < 0x800) { s += (char)(0xC0 | r >> 6); s += (char)(0x80 | (r & 63)); }
  else if (r < 0x10000) { s += (char)(0xE0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  else { s += (char)(0xF0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  return s;
}
int drawRune() {
  switch (pick(6)) {
    case 0: return 'a' + (int)pick(26);
    case 1: return 0x80 + (int)pick(0x780);
    case 2: return 0x800 + (int)pick(0xD000);
    case 3: return 0x10000 + (int)pick(0x100000);
    case 4: { static const int edge[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF}; return edge[pick(9)]; }
    default: return 1 + (int)pick(127);
  }
}
int drawLen() {
  switch (pick(6)) {
    case 0: return (int)pick(4);
    case 1: return 20 + (int)pick(6);   // around the inline capacity
    case 2: return (int)pick(23);
    case 3: return 8 * (1 + (int)pick(8)) - 1 + (int)pick(3);  // around heap capacities
    case 4: return scaled((int)pick(90), pick(3) ? 2000 : 70000);
    default: return 22 + (int)pick(3);
  }
}
char drawAscii() { return pick(4) ? (char)('a' + pick(4)) : (char)(1 + pick(127)); }
// A text of the given kind.
B drawText(int type, int n) {
  B s;
  if (type == kUtf8) {
    while ((int)s.size() < n) s += pick(4) ? B(1, drawAscii()) : utf8(drawRune());
  } else {
    for (int i = 0; i < n; ++i) s += type == kAscii ? drawAscii() : (char)pick(256);
  }
  return s;
}
int drawType() { static const int t[] = {kAscii, kUtf8, kByte}; return t[pick(3)]; }
il::StringType ilType(int t) { return t == kAscii ? il::StringType::Ascii : t == kUtf8 ? il::StringType::Utf8 : il::StringType::Byte; }
int joined(int a, int b) { return a > b ? a : b; }
bool boundary(const B& s, int i) { return i >= (int)s.size() || ((unsigned char)s[(size_t)i] & 0xC0) != 0x80; }

struct World {
  typedef il::String A;
  Holder<A> h[kSlots];
  B m[kSlots];
  int ty[kSlots];

  bool check(int k, const char* what) {
    const char *d = nullptr, *c = nullptr;
    il::int_t n = -1, cap = -1;
    bool empty = false, small = false;
    int type = 0;
    if (!sut("size", [&] { const A& r = *h[k]; n = r.size(); cap = r.capacity(); d = r.data(); c = r.asCString(); empty = r.isEmpty(); small = r.isSmall(); type = typeOf(r.type()); })) return false;
    const B& w = m[k];
    evt(what, k, n);
    SIM_CHECK(n == (il::int_t)w.size(), "wrong-size", "%s: size %ld instead of %zu", what, (long)n, w.size());
    SIM_CHECK(cap >= n, "capacity-below-size", "%s: capacity %ld below size %ld", what, (long)cap, (long)n);
    SIM_CHECK(empty == w.empty(), "wrong-size", "%s: isEmpty() is wrong", what);
    SIM_CHECK(d == c, "wrong-range", "%s: data() and asCString() differ", what);
    checkBlock(what, d, cap + 1, 1, h[k].p, sizeof(A));
    if (small) SIM_CHECK(d >= (char*)h[k].p && d + cap < (char*)h[k].p + sizeof(A), "outside-block", "%s: a small string lies outside the object", what);
    SIM_CHECK(std::memcmp(d, w.data(), w.size()) == 0, "wrong-bytes", "%s: the bytes differ (%zu bytes, kind %d)", what, w.size(), type);
    SIM_CHECK(d[n] == 0, "not-terminated", "%s: the string of %ld bytes is not null-terminated", what, (long)n);
    SIM_CHECK(type == ty[k], "wrong-kind", "%s: kind %d instead of %d", what, type, ty[k]);
    { evt("bytes", w); }
    for (int j = 0; j < kSlots; ++j) {
      if (j == k || !h[j].live()) continue;
      const char* q = h[j]->data();
      SIM_CHECK(d + cap < q || q + h[j]->capacity() < d, "shared-storage", "%s: two strings share storage", what);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  // A moved-from string is a valid string with unspecified content.
  bool resync(int k) {
    il::int_t n = -1, cap = -1;
    const char* d = nullptr;
    int type = 0;
    if (!sut("size", [&] { n = h[k]->size(); cap = h[k]->capacity(); d = h[k]->data(); type = typeOf(h[k]->type()); })) return false;
    SIM_CHECK(n >= 0 && n <= cap && cap < 100000, "moved-from-invalid", "a moved-from string has size %ld and capacity %ld", (long)n, (long)cap);
    checkBlock("moved-from", d, cap + 1, 1, h[k].p, sizeof(A));
    m[k].assign(d, (size_t)n);
    ty[k] = type;
    return true;
  }
  int other(int k) {
    int c[kSlots], t = 0;
    for (int j = 0; j < kSlots; ++j)
      if (j != k && h[j].live()) c[t++] = j;
    return t ? c[pick((uint64_t)t)] : -1;
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    switch (pick(8)) {
      case 0: m[k].clear(); ty[k] = kAscii; return sut("String()", [&] { new (p) A{}; });
      case 1: { const char c = drawAscii(); m[k] = B(1, c); ty[k] = kAscii; return sut("String(char)", [&] { new (p) A{c}; }); }
      case 2: return literal(k, true);
      case 3: case 4: {
        const int j = other(k);
        if (j < 0) { m[k].clear(); ty[k] = kAscii; return sut("String()", [&] { new (p) A{}; }); }
        m[k] = m[j];
        ty[k] = ty[j];
        switch (pick(3)) {
          case 0: return sut("copy construction", [&] { const A& s = *h[j]; new (p) A(s); }) && check(j, "copied-from");
          case 1: return sut("String(view)", [&] { new (p) A(h[j]->view()); }) && check(j, "viewed");
          default: return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j) && check(j, "moved-from");
        }
      }
      default: {
        ty[k] = drawType();
        m[k] = drawText(ty[k], drawLen());
        Src s{m[k]};
        return sut("String(type, data, n)", [&] { new (p) A{ilType(ty[k]), s.p, s.n}; });
      }
    }
  }
  // construction from, or assignment of, a literal
  bool literal(int k, bool ctor) {
    void* p = h[k].p;
    ty[k] = kUtf8;
#define LIT(text) \
  m[k] = text;    \
  return ctor ? sut("String(literal)", [&] { new (p) A{text}; }) : sut("assignment of a literal", [&] { *h[k] = text; })
    switch (pick(6)) {
      case 0: LIT("");
      case 1: LIT("short");
      case 2: LIT("twenty-two characters!");
      case 3: LIT("twenty-three characters");
      case 4: LIT("caf\xC3\xA9 \xE2\x82\xAC, twenty-four b");
      default: LIT("a literal that never fits the small buffer of a string object");
    }
#undef LIT
  }
  void boundaryPick(int k, int& i) {
    i = (int)pick(m[k].size() + 1);
    if (ty[k] == kUtf8)
      while (!boundary(m[k], i)) --i;
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k) && check(k, "construct");
    A& a = *h[k];
    B& w = m[k];
    switch (pick(30)) {
      case 0: case 1: { const char c = drawAscii(); w += c; return sut("Append(char)", [&] { a.Append(c); }) && check(k, "append-char"); }
      case 2: { const int r = drawRune(); w += utf8(r); if (r >= 0x80) ty[k] = joined(ty[k], kUtf8); return sut("Append(rune)", [&] { a.Append(r); }) && check(k, "append-rune"); }
      case 3: { const int c = scaled((int)pick(30), 5000); const char x = drawAscii(); w += B((size_t)c, x); return sut("Append(n, char)", [&] { a.Append((il::int_t)c, x); }) && check(k, "append-n-char"); }
      case 4: {
        const int c = scaled((int)pick(12), 2000), r = drawRune();
        for (int i = 0; i < c; ++i) w += utf8(r);
        if (r >= 0x80) ty[k] = joined(ty[k], kUtf8);
        return sut("Append(n, rune)", [&] { a.Append((il::int_t)c, r); }) && check(k, "append-n-rune");
      }
      case 5: {
        ty[k] = joined(ty[k], kUtf8);
        switch (pick(3)) {
          case 0: w += "x"; return sut("Append(literal)", [&] { a.Append("x"); }) && check(k, "append-literal");
          case 1: w += ""; return sut("Append(literal)", [&] { a.Append(""); }) && check(k, "append-literal");
          default: w += "eleven char"; return sut("Append(literal)", [&] { a.Append("eleven char"); }) && check(k, "append-literal");
        }
      }
      case 6: case 7: {
        const int t = drawType();
        const B s = drawText(t, (int)pick(4) ? (int)pick(12) : drawLen());
        Src b{s};
        w += s;
        ty[k] = joined(ty[k], t);
        if (pick(2)) return sut("Append(type, data, n)", [&] { a.Append(ilType(t), b.p, b.n); }) && check(k, "append-data");
        return sut("Append(view)", [&] { a.Append(il::StringView{ilType(t), b.p, b.n}); }) && check(k, "append-view");
      }
      case 8: case 9: {  // of another string or of itself
        if (w.size() > 4000) return true;
        const int n = 1 + (int)pick(3);
        int j[3], t[3];
        B s[3], all;
        std::unique_ptr<Src> src[3];
        int kind = ty[k];
        for (int i = 0; i < n; ++i) {
          j[i] = pick(2) ? k : (int)pick(kSlots);
          if (pick(3) == 2 || !h[j[i]].live()) {
            j[i] = -1;
            t[i] = drawType();
            s[i] = drawText(t[i], (int)pick(4) ? (int)pick(12) : drawLen());
            Host q;
            src[i].reset(new Src{s[i]});
          } else {
            s[i] = m[j[i]];
            t[i] = ty[j[i]];
          }
          kind = joined(kind, t[i]);
          all += s[i];
        }
        const bool literal = n == 3 && one(4);
        if (literal) {
          all = s[0] + "lit" + s[2];
          kind = joined(joined(joined(ty[k], t[0]), kUtf8), t[2]);
        }
        w += all;
        ty[k] = kind;
        auto v = [&](int i) { return j[i] < 0 ? il::StringView{ilType(t[i]), src[i]->p, src[i]->n} : il::StringView(*h[j[i]]); };
        if (n == 1) return sut("Append(string)", [&] { a.Append(v(0)); }) && check(k, j[0] == k ? "append-itself" : "append-string");
        if (n == 2) return sut("Append(string, string)", [&] { a.Append(v(0), v(1)); }) && check(k, "append-two");
        if (literal) return sut("Append(string, literal, string)", [&] { a.Append(v(0), "lit", v(2)); }) && check(k, "append-three");
        return sut("Append(string, string, string)", [&] { a.Append(v(0), v(1), v(2)); }) && check(k, "append-three");
      }
      case 10: {  // a part of itself
        if (w.size() > 4000) return true;
        int i, e;
        boundaryPick(k, i);
        boundaryPick(k, e);
        if (i > e) std::swap(i, e);
        const B s = w.substr((size_t)i, (size_t)(e - i));
        w += s;
        if (pick(2)) return sut("Append(subview of itself)", [&] { a.Append(a.subview(i, e)); }) && check(k, "append-part");
        return sut("Append(type, data of itself)", [&] { a.Append(a.type(), a.data() + i, (il::int_t)(e - i)); }) && check(k, "append-part");
      }
      case 11: case 12: {
        const int r = pick(2) ? drawLen() : (int)w.size() + (int)pick(20);
        if (!sut("Reserve", [&] { a.Reserve(r); })) return false;
        il::int_t c = 0;
        if (!sut("capacity", [&] { c = a.capacity(); })) return false;
        SIM_CHECK(c >= r, "reserve-too-small", "Reserve(%d) left a capacity of %ld", r, (long)c);
        return check(k, "reserve");
      }
      case 13: w.clear(); ty[k] = kAscii; return sut("Clear", [&] { a.Clear(); }) && check(k, "clear");
      case 14: case 15: case 16: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) { w = m[j]; ty[k] = ty[j]; }
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; }) && check(k, "copy-assign") && (j == k || check(j, "copied-from"));
      }
      case 17: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k) && check(k, "self-move");
        w = m[j];
        ty[k] = ty[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j) && check(k, "move-assign") && check(j, "moved-from");
      }
      case 18: return literal(k, false) && check(k, "assign-literal");
      case 19: case 20: {
        int i;
        boundaryPick(k, i);
        switch (pick(5)) {
          case 4: {  // a part of itself
            if (w.size() > 4000) return true;
            int b, e;
            boundaryPick(k, b);
            boundaryPick(k, e);
            if (b > e) std::swap(b, e);
            const B s = w.substr((size_t)b, (size_t)(e - b));
            w.insert((size_t)i, s);
            if (pick(2)) return sut("Insert(i, subview of itself)", [&] { a.Insert(i, a.subview(b, e)); }) && check(k, "insert-part");
            return sut("Insert(i, type, data of itself)", [&] { a.Insert(i, a.type(), a.data() + b, (il::int_t)(e - b)); }) && check(k, "insert-part");
          }
          case 0: { const char c = drawAscii(); w.insert((size_t)i, 1, c); return sut("Insert(i, char)", [&] { a.Insert(i, c); }) && check(k, "insert-char"); }
          case 1: { const char c = drawAscii(); const int n = scaled((int)pick(20), 5000); w.insert((size_t)i, (size_t)n, c); return sut("Insert(i, n, char)", [&] { a.Insert(i, (il::int_t)n, c); }) && check(k, "insert-n-char"); }
          case 2: w.insert((size_t)i, "literal"); return insertLiteral(k, i);
          default: {
            const int t = drawType();
            const B s = drawText(t, t_ctx.large && pick(3) == 0 ? drawLen() : (int)pick(14));
            Src b{s};
            w.insert((size_t)i, s);
            ty[k] = joined(ty[k], t);
            return sut("Insert(i, view)", [&] { a.Insert(i, il::StringView{ilType(t), b.p, b.n}); }) && check(k, "insert-view");
          }
        }
      }
      case 21: return h[k].destroy("destruction");
      case 22: {  // substring, subview
        int i, e;
        boundaryPick(k, i);
        boundaryPick(k, e);
        if (i > e) std::swap(i, e);
        const B s = w.substr((size_t)i, (size_t)(e - i));
        bool same = false, vsame = false;
        if (!sut("substring", [&] {
              const A& r = a;
              il::String t = r.substring(i, e);
              same = t.size() == (il::int_t)s.size() && std::memcmp(t.data(), s.data(), s.size()) == 0 && t.data()[t.size()] == 0;
              il::StringView v = r.subview(i, e);
              vsame = v.size() == (il::int_t)s.size() && (s.empty() || std::memcmp(v.data(), s.data(), s.size()) == 0);
            })) return false;
        SIM_CHECK(same, "wrong-substring", "substring(%d, %d) of %zu bytes is wrong", i, e, w.size());
        SIM_CHECK(vsame, "wrong-subview", "subview(%d, %d) of %zu bytes is wrong", i, e, w.size());
        return true;
      }
      case 23: case 24: return compareWith(k);
      case 25: return joins(k);
      case 26: return viewOps(k);
      case 27: return searches(k);
      default:
        if (one(3)) return h[k].destroy("destruction") && construct(k) && check(k, "construct");
        // bytes written in place
        if (w.empty() || ty[k] == kUtf8) return true;
        const int i = (int)pick(w.size());
        const char c = drawAscii();
        w[(size_t)i] = c;
        return sut("Data", [&] { a.Data()[i] = c; }) && check(k, "data");
    }
  }
  // The kind after the insertion of a literal is not settled: read it back.
  bool insertLiteral(int k, int i) {
    if (!sut("Insert(i, literal)", [&] { h[k]->Insert(i, "literal"); })) return false;
    int t = 0;
    if (!sut("type", [&] { t = typeOf(h[k]->type()); })) return false;
    SIM_CHECK(t == ty[k] || t == joined(ty[k], kUtf8), "wrong-kind", "insertion of a literal: kind %d", t);
    ty[k] = t;
    return check(k, "insert-literal");
  }
  bool compareWith(int k) {
    const int j = (int)pick(kSlots);
    if (!h[j].live()) return true;
    const B &x = m[k], &y = m[j];
    bool eq = false, lt = false, gt = false, eqp = false, eqc = false, nec = false, eqv = false;
    Src c{y, true};
    const bool text = x.find('\0') == B::npos && y.find('\0') == B::npos;
    if (!sut("comparison", [&] {
          const A &a = *h[k], &b = *h[j];
          eq = a == b;
          eqp = a.isEqual(c.p, c.n);
          if (text) {
            lt = a < b;
            gt = b < a;
            eqc = a == c.p && c.p == a && a.isEqual(c.p);
            nec = a != c.p || c.p != a;
            eqv = a.view() == c.p;
          }
        })) return false;
    evt("compare", k, j, x == y);
    SIM_CHECK(eq == (x == y) && eqp == (x == y), "wrong-comparison", "equality of strings of %zu and %zu bytes is wrong", x.size(), y.size());
    if (text) {
      const int s = std::strcmp(x.c_str(), y.c_str());
      SIM_CHECK(lt == (s < 0) && gt == (s > 0), "wrong-comparison", "the order of strings of %zu and %zu bytes is wrong", x.size(), y.size());
      SIM_CHECK(eqc == (x == y) && nec == (x != y) && eqv == (x == y), "wrong-comparison", "comparison with a C string is wrong");
    }
    return true;
  }
  bool joins(int k) {
    const int j = (int)pick(kSlots);
    if (!h[j].live() || m[k].size() + m[j].size() > 2000) return true;
    const int how = (int)pick(5);
    const B &x = m[k], &y = m[j], l = "--";
    const B want = how == 0 ? x + y : how == 1 ? x + l + y : how == 2 ? x + l + y + l : how == 3 ? x + y + l + l + x : x + y + x + l + y + y;
    bool same = false, term = false;
    il::int_t n = 0;
    if (!sut("join", [&] {
          const A &a = *h[k], &b = *h[j];
          il::String s = how == 0 ? il::join(a, b) : how == 1 ? il::join(a, "--", b) : how == 2 ? il::join(a, "--", b, "--") :
                         how == 3 ? il::join(a, b, "--", "--", a) : il::join(a, b, a, "--", b, b);
          n = s.size();
          same = n == (il::int_t)want.size() && std::memcmp(s.data(), want.data(), want.size()) == 0;
          term = s.data()[n] == 0;
        })) return false;
    evt("join", how, n);
    SIM_CHECK(same && term, "wrong-join", "join of %zu bytes gives %ld bytes, or other bytes, or no terminator", want.size(), (long)n);
    return true;
  }
  bool searches(int k) {
    const B& w = m[k];
    B s;
    if (!w.empty() && pick(3)) {
      const size_t i = pick(w.size());
      switch (pick(5)) {
        case 0: s = w.substr(i, 1 + pick(std::min<size_t>(w.size() - i, 400))); break;
        case 1: s = w.substr(w.size() - 1 - pick(std::min<size_t>(w.size(), 400))); break;  // the end
        default: s = w.substr(i, 1 + pick(6));
      }
      if (one(6)) s[pick(s.size())] ^= 1;  // almost there
    } else
      s = drawText(kByte, (int)pick(4));
    const char c = drawAscii();
    const B sfx = pick(2) && !w.empty() ? w.substr(w.size() - 1 - pick(w.size())) : s;
    const B pre = pick(2) ? w.substr(0, pick(w.size() + 1)) : s;
    Src a{s}, f{sfx}, p{pre};
    il::int_t at = -2, at2 = -2, cnt = -2;
    bool st = false, en = false, enc = false, fnd = false;
    if (!sut("search", [&] {
          const A& r = *h[k];
          at = r.search(il::StringView{il::StringType::Byte, a.p, a.n});
          fnd = r.found(at);
          at2 = il::search(il::StringView{il::StringType::Byte, a.p, a.n}, r.view());
          cnt = r.count(c);
          st = r.startsWith(il::StringView{il::StringType::Byte, p.p, p.n});
          en = r.endsWith(il::StringView{il::StringType::Byte, f.p, f.n});
          enc = r.endsWith(c);
        })) return false;
    const size_t q = w.find(s);
    const il::int_t want = q == B::npos ? -1 : (il::int_t)q;
    evt("search", at, cnt, st, en);
    SIM_CHECK(at == want && at2 == want && fnd == (want >= 0), "wrong-search", "search gives %ld and %ld instead of %ld", (long)at, (long)at2, (long)want);
    il::int_t n = 0;
    for (char x : w) n += x == c;
    SIM_CHECK(cnt == n, "wrong-search", "count gives %ld instead of %ld", (long)cnt, (long)n);
    SIM_CHECK(st == (w.compare(0, pre.size(), pre) == 0 && pre.size() <= w.size()), "wrong-search", "startsWith is wrong");
    SIM_CHECK(en == (sfx.size() <= w.size() && w.compare(w.size() - sfx.size(), sfx.size(), sfx) == 0), "wrong-search", "endsWith is wrong");
    SIM_CHECK(enc == (!w.empty() && w.back() == c), "wrong-search", "endsWith(char) is wrong");
    return true;
  }
  bool viewOps(int k) {
    const B& w = m[k];
    switch (pick(4)) {
      case 0: {  // prefix and suffix removed
        const int i = (int)pick(w.size() + 1), e = (int)pick(w.size() - (size_t)i + 1);
        bool ok = false;
        const B s = w.substr((size_t)i, (size_t)e);
        if (!sut("view", [&] {
              il::StringView v = h[k]->view();
              v.removePrefix(i);
              v.removeSuffix(e);
              ok = v.size() == e && (e == 0 || std::memcmp(v.data(), s.data(), s.size()) == 0) && v.isEmpty() == (e == 0);
              for (il::int_t t = 0; t < e; ++t) ok = ok && v[t] == s[(size_t)t];
            })) return false;
        SIM_CHECK(ok, "wrong-subview", "a view shortened to [%d, %d) is wrong", i, i + e);
        return true;
      }
      case 1: {  // code points of a UTF-8 text
        if (ty[k] == kByte) return true;
        std::vector<int> want, pos;
        for (size_t i = 0; i < w.size();) {
          const unsigned char c = (unsigned char)w[i];
          const int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
          int r = n == 1 ? c : c & (0x7F >> n);
          for (int t = 1; t < n; ++t) r = r << 6 | ((unsigned char)w[i + (size_t)t] & 63);
          want.push_back(r);
          pos.push_back((int)i);
          i += (size_t)n;
        }
        pos.push_back((int)w.size());
        const int cnt = (int)want.size();
        int bad = -1;
        if (!sut("runes", [&] {
              il::StringView v = h[k]->view();
              il::int_t i = 0;
              for (int t = 0; t < cnt; ++t) {
                if (i != pos[(size_t)t] || v.rune(i) != want[(size_t)t]) { bad = t; return; }
                i = v.nextRune(i);
              }
              if (i != v.size() && cnt) bad = cnt;
            })) return false;
        SIM_CHECK(bad < 0, "wrong-rune", "code point %d of a text is wrong", bad);
        return true;
      }
      case 2: {
        const char c = drawAscii();
        const int i = (int)pick(w.size() + 1);
        il::int_t nc = -2, nd = -2;
        if (!sut("nextChar", [&] { il::StringView v = h[k]->view(); nc = v.nextChar(i, c); nd = v.nextDigit(i); })) return false;
        const size_t q = w.find(c, (size_t)i), d = w.find_first_of("0123456789", (size_t)i);
        SIM_CHECK(nc == (q == B::npos ? -1 : (il::int_t)q) && nd == (d == B::npos ? -1 : (il::int_t)d), "wrong-search", "nextChar or nextDigit is wrong");
        return true;
      }
      default: {
        const int64_t v = pick(3) == 0 ? (int64_t)pick(2000) - 1000 : (pick(2) ? INT64_MAX : INT64_MIN) / (int64_t)(1ull << pick(63));
        const B want = std::to_string((long long)v);
        bool ok = false;
        if (!sut("toString", [&] { il::String s = il::toString((il::int_t)v); ok = s.size() == (il::int_t)want.size() && std::memcmp(s.asCString(), want.c_str(), want.size() + 1) == 0; })) return false;
        SIM_CHECK(ok, "wrong-number", "the text of %lld is wrong", (long long)v);
        return true;
      }
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok) ok = checkAll("all");
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
}  // namespace

void world_string() {
  drawMemory(refusals());
  World w;
  w.run();
}
