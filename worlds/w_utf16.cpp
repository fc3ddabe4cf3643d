// UTF-16 strings and the conversions from and to UTF-8 (C35).
#include <il/UTF16String.h>
#include <il/unicode.h>

#include "seq.h"

using namespace seq;

namespace {
typedef std::u16string B;
const int kSlots = 3;

void add(B& s, int r) {
  if (r < 0x10000) { s += (char16_t)r; return; }
  const unsigned a = (unsigned)r - 0x10000u;
  s += (char16_t)(0xD800u + (a >> 10));
  s += (char16_t)(0xDC00u + (a & 0x3FFu));
}
void add8(std::string& s, int r) {
  if (r < 0x80) s += (char)r;
  else if (r < 0x800) { s += (char)(0xC0 | r >> 6); s += (char)(0x80 | (r & 63)); }
  else if (r < 0x10000) { s += (char)(0xE0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  else { s += (char)(0xF0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
}
std::vector<int> runesOf(const B& s) {
  std::vector<int> r;
  for (size_t i = 0; i < s.size(); ++i) {
    const unsigned a = s[i];
    if (a >= 0xD800u && a < 0xDC00u && i + 1 < s.size()) {
      r.push_back((int)(((a & 0x3FFu) << 10) + (s[i + 1] & 0x3FFu) + 0x10000u));
      ++i;
    } else r.push_back((int)a);
  }
  return r;
}
int drawRune() {
  switch (pick(6)) {
    case 0: return 'a' + (int)pick(26);
    case 1: return 0x80 + (int)pick(0x780);
    case 2: return 0x800 + (int)pick(0xD000);
    case 3: return 0x10000 + (int)pick(0x100000);
    case 4: { static const int edge[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF}; return edge[pick(9)]; }
    default: return 1 + (int)pick(127);
  }
}
int drawLen() {
  switch (pick(5)) {
    case 0: return (int)pick(4);
    case 1: return 9 + (int)pick(5);  // around the inline capacity
    case 2: return (int)pick(12);
    case 3: return 4 * (1 + (int)pick(8)) - 1 + (int)pick(3);
    default: return scaled((int)pick(60), pick(3) ? 2000 : 40000);
  }
}
std::vector<int> drawText(int n) {
  std::vector<int> r;
  for (int i = 0; i < n; ++i) r.push_back(pick(4) ? 'a' + (int)pick(4) : drawRune());
  return r;
}
B toB(const std::vector<int>& r) { B s; for (int x : r) add(s, x); return s; }

// A source buffer of exactly the text and its end (reading past it is an error).
struct Src {
  char16_t* p;
  explicit Src(const B& b) : p{(char16_t*)rawAlloc(2 * (b.size() + 1))} { std::memcpy(p, b.data(), 2 * b.size()); p[b.size()] = 0; }
  ~Src() { rawFree(p); }
  Src(const Src&) = delete;
};
struct Src8 {
  char* p;
  il::int_t n;
  explicit Src8(const std::string& b) : p{(char*)rawAlloc(b.size() ? b.size() : 1)}, n{(il::int_t)b.size()} { std::memcpy(p, b.data(), b.size()); }
  ~Src8() { rawFree(p); }
  Src8(const Src8&) = delete;
};

struct World {
  typedef il::UTF16String A;
  Holder<A> h[kSlots];
  B m[kSlots];

  bool check(int k, const char* what) {
    const void *d = nullptr, *c = nullptr;
    il::int_t n = -1, cap = -1;
    bool empty = false, small = false;
    if (!sut("size", [&] { const A& r = *h[k]; n = r.size(); cap = r.capacity(); d = r.data(); c = r.asWString(); empty = r.isEmpty(); small = r.isSmall(); })) return false;
    const B& w = m[k];
    evt(what, k, n);
    SIM_CHECK(n == (il::int_t)w.size(), "wrong-size", "%s: size %ld instead of %zu", what, (long)n, w.size());
    SIM_CHECK(cap >= n, "capacity-below-size", "%s: capacity %ld below size %ld", what, (long)cap, (long)n);
    SIM_CHECK(empty == w.empty(), "wrong-size", "%s: isEmpty() is wrong", what);
    SIM_CHECK(d == c, "wrong-range", "%s: data() and asWString() differ", what);
    checkBlock(what, d, cap + 1, 2, h[k].p, sizeof(A));
    const char* b = (const char*)d;
    if (small) SIM_CHECK(b >= (char*)h[k].p && b + 2 * cap < (char*)h[k].p + sizeof(A), "outside-block", "%s: a small string lies outside the object", what);
    SIM_CHECK(std::memcmp(d, w.data(), 2 * w.size()) == 0, "wrong-units", "%s: the text differs (%zu units)", what, w.size());
    SIM_CHECK(b[2 * n] == 0 && b[2 * n + 1] == 0, "not-terminated", "%s: the string of %ld units is not null-terminated", what, (long)n);
    for (int j = 0; j < kSlots; ++j) {
      if (j == k || !h[j].live()) continue;
      const char* q = (const char*)h[j]->data();
      SIM_CHECK(b + 2 * cap < q || q + 2 * h[j]->capacity() < b, "shared-storage", "%s: two strings share storage", what);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  // A moved-from string is a valid string with unspecified content.
  bool resync(int k) {
    il::int_t n = -1, cap = -1;
    const void* d = nullptr;
    if (!sut("size", [&] { n = h[k]->size(); cap = h[k]->capacity(); d = h[k]->data(); })) return false;
    SIM_CHECK(n >= 0 && n <= cap && cap < 1000000, "moved-from-invalid", "a moved-from string has size %ld and capacity %ld", (long)n, (long)cap);
    checkBlock("moved-from", d, cap + 1, 2, h[k].p, sizeof(A));
    m[k].resize((size_t)n);
    std::memcpy(&m[k][0], d, 2 * (size_t)n);
    return true;
  }
  // m[k] already holds what is expected
  template <typename F>
  bool append(int k, const char* what, F&& f) {
    const bool room = (il::int_t)m[k].size() <= h[k]->capacity();
    const uint64_t count = g_astats.count;
    if (!sut(what, f)) return false;
    SIM_CHECK(!room || g_astats.count == count, "moved-though-room", "%s asked for memory although the capacity was sufficient", what);
    return true;
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    int j = (int)pick(kSlots);
    switch (pick(6)) {
      case 0: m[k].clear(); return sut("UTF16String()", [&] { new (p) A{}; });
      case 1: case 2:
        if (j != k && h[j].live()) {
          m[k] = m[j];
          if (pick(2)) return sut("copy construction", [&] { const A& s = *h[j]; new (p) A(s); }) && check(j, "copied-from");
          return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j) && check(j, "moved-from");
        }
        /* fallthrough */
      case 3: {  // from a text in UTF-8
        const std::vector<int> r = drawText(drawLen());
        std::string b;
        for (int x : r) add8(b, x);
        m[k] = toB(r);
        Src8 s{b};
        return sut("toUtf16", [&] { new (p) A(il::toUtf16(il::String{il::StringType::Utf8, s.p, s.n})); });
      }
      default: {
        m[k] = toB(drawText(drawLen()));
        Src s{m[k]};
        return sut("UTF16String(data)", [&] { new (p) A(s.p); });
      }
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k) && check(k, "construct");
    A& a = *h[k];
    B& w = m[k];
    switch (pick(20)) {
      case 0: case 1: { const char c = (char)(1 + pick(127)); add(w, c); return append(k, "Append(char)", [&] { a.Append(c); }) && check(k, "append-char"); }
      case 2: case 3: { const int r = drawRune(); add(w, r); return append(k, "Append(rune)", [&] { a.Append(r); }) && check(k, "append-rune"); }
      case 4: { const int n = (int)pick(20); const char c = (char)(1 + pick(127)); for (int i = 0; i < n; ++i) add(w, c); return append(k, "Append(n, char)", [&] { a.Append((il::int_t)n, c); }) && check(k, "append-n-char"); }
      case 5: { const int n = (int)pick(12), r = drawRune(); for (int i = 0; i < n; ++i) add(w, r); return append(k, "Append(n, rune)", [&] { a.Append((il::int_t)n, r); }) && check(k, "append-n-rune"); }
      case 6: case 7: {
        const B s = toB(drawText(pick(4) ? (int)pick(8) : drawLen()));
        Src b{s};
        w += s;
        return append(k, "Append(data)", [&] { a.Append(b.p); }) && check(k, "append-data");
      }
      case 8: case 9: {  // of another string or of itself
        if (w.size() > 4000) return true;
        const int j = pick(3) == 0 ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        const B s = m[j];
        w += s;
        return append(k, "Append(string)", [&] { const A& b = *h[j]; a.Append(b); }) && check(k, j == k ? "append-itself" : "append-string");
      }
      case 10: {  // the end of itself
        if (w.size() > 4000) return true;
        const size_t i = pick(w.size() + 1);
        if (w.find(u'\0') != B::npos) return true;
        const B s = w.substr(i);
        w += s;
        return append(k, "Append(data of itself)", [&] { a.Append(a.asWString() + i); }) && check(k, "append-part");
      }
      case 11: {
        const int r = pick(2) ? drawLen() : (int)w.size() + (int)pick(20);
        if (!sut("Reserve", [&] { a.Reserve(r); })) return false;
        il::int_t c = 0;
        if (!sut("capacity", [&] { c = a.capacity(); })) return false;
        SIM_CHECK(c >= r, "reserve-too-small", "Reserve(%d) left a capacity of %ld", r, (long)c);
        return check(k, "reserve");
      }
      case 12: case 13: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) w = m[j];
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; }) && check(k, "copy-assign") && (j == k || check(j, "copied-from"));
      }
      case 14: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k) && check(k, "self-move");
        w = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j) && check(k, "move-assign") && check(j, "moved-from");
      }
      case 15: return h[k].destroy("destruction");
      case 16: {
        const int j = (int)pick(kSlots);
        if (!h[j].live()) return true;
        bool eq = false;
        if (!sut("operator==", [&] { const A& x = a; eq = x == *h[j]; })) return false;
        SIM_CHECK(eq == (w == m[j]), "wrong-comparison", "== of two strings is wrong");
        return true;
      }
      case 17: {  // the code points
        const std::vector<int> want = runesOf(w);
        int bad = -1;
        if (!sut("runes", [&] {
              const A& r = a;
              il::int_t i = 0;
              const int cnt = (int)want.size();
              for (int t = 0; t < cnt; ++t) {
                if (i >= r.size() || r.rune(i) != want[(size_t)t]) { bad = t; return; }
                i = r.nextRune(i);
              }
              if (i != r.size()) bad = cnt;
            })) return false;
        SIM_CHECK(bad < 0, "wrong-rune", "code point %d of a text is wrong", bad);
        return true;
      }
      default: {  // to UTF-8 and back
        std::string want;
        for (int x : runesOf(w)) add8(want, x);
        bool same = false, back = false;
        if (!sut("toUtf8", [&] {
              const A& r = a;
              const il::String s = il::toUtf8(r);
              same = s.size() == (il::int_t)want.size() && std::memcmp(s.asCString(), want.c_str(), want.size() + 1) == 0;
              const A t = il::toUtf16(s);
              back = t == r && t.size() == r.size();
            })) return false;
        evt("utf8", want);
        SIM_CHECK(same, "wrong-conversion", "the UTF-8 form of a text of %zu units is wrong", w.size());
        SIM_CHECK(back, "wrong-conversion", "a text of %zu units is not the same after a conversion to UTF-8 and back", w.size());
        return true;
      }
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok) ok = checkAll("all");
    }
    if (ops > 3) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
}  // namespace

void world_utf16() {
  drawMemory(refusals());
  World w;
  w.run();
}
