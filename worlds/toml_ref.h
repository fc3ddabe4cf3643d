// Values of a configuration, and an independent strict reader of the subset of
// TOML that the library supports.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace toml {
struct V {
  enum K { Bool, Int, Dbl, Str, Arr, Tab, Other } k = Tab;
  bool b = false;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> t;
  int rep = 0;      // how the library holds it (see the users)
  int64_t n0 = 0, n1 = 0;
  // while reading
  bool defined = false;    // a table with its own header, or an inline table
  bool closed = false;     // an inline value: may not be extended
  static V boolean(bool x) { V v; v.k = Bool; v.b = x; return v; }
  static V integer(int64_t x) { V v; v.k = Int; v.i = x; return v; }
  static V real(double x) { V v; v.k = Dbl; v.d = x; return v; }
  static V str(const std::string& x) { V v; v.k = Str; v.s = x; return v; }
  static V arr() { V v; v.k = Arr; return v; }
  static V tab() { V v; v.k = Tab; return v; }
  V* find(const std::string& key) {
    for (auto& p : t) if (p.first == key) return &p.second;
    return nullptr;
  }
  const V* find(const std::string& key) const { return const_cast<V*>(this)->find(key); }
};
inline std::string quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (o.size() > 60) { o += ".."; break; }
    if (c >= 32 && c < 127 && c != '"') o += (char)c;
    else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o + "\"";
}
inline std::string show(const V& v, size_t max = 160) {
  char b[64];
  std::string o;
  switch (v.k) {
    case V::Bool: return v.b ? "true" : "false";
    case V::Int: std::snprintf(b, sizeof b, "%lld", (long long)v.i); return b;
    case V::Dbl: std::snprintf(b, sizeof b, "%.17g (double)", v.d); return b;
    case V::Str: return quote(v.s);
    case V::Arr:
      o = "[";
      for (auto& x : v.a) { o += show(x, max / 2) + ","; if (o.size() > max) { o += ".."; break; } }
      return o + "]";
    case V::Tab:
      o = "{";
      for (auto& x : v.t) { o += quote(x.first) + "=" + show(x.second, max / 2) + ","; if (o.size() > max) { o += ".."; break; } }
      return o + "}";
    default: return "?";
  }
}
// "" if they are the same, otherwise where they differ
inline std::string differ(const V& got, const V& want, const std::string& path, bool ordered = false) {
  auto bad = [&] { return (path.empty() ? "document" : path) + " is " + show(got) + " instead of " + show(want); };
  if (got.k != want.k) return bad();
  switch (want.k) {
    case V::Bool: return got.b == want.b ? "" : bad();
    case V::Int: return got.i == want.i ? "" : bad();
    case V::Dbl: return std::memcmp(&got.d, &want.d, 8) == 0 ? "" : bad();
    case V::Str: return got.s == want.s ? "" : bad();
    case V::Arr:
      if (got.a.size() != want.a.size()) return bad();
      for (size_t i = 0; i < want.a.size(); ++i) {
        std::string e = differ(got.a[i], want.a[i], path + "[" + std::to_string(i) + "]", ordered);
        if (!e.empty()) return e;
      }
      return "";
    case V::Tab:
      if (got.t.size() != want.t.size()) return bad();
      for (size_t i = 0; i < want.t.size(); ++i) {
        const V* g = got.find(want.t[i].first);
        if (!g || (ordered && got.t[i].first != want.t[i].first)) return bad();
        std::string e = differ(*g, want.t[i].second, path + "." + quote(want.t[i].first), ordered);
        if (!e.empty()) return e;
      }
      return "";
    default: return bad();
  }
}

struct Reader {
  const std::string& b;
  size_t p = 0;
  bool cut = false;       // the document ends inside a string, an array, an inline table or a header
  std::string why;
  int depth = 0;
  explicit Reader(const std::string& bytes) : b(bytes) {}
  bool fail(const char* w) { if (why.empty()) why = w; return false; }
  bool end() const { return p >= b.size(); }
  bool ended(const char* w) { cut = true; return fail(w); }
  void ws() { while (!end() && (b[p] == ' ' || b[p] == '\t')) ++p; }
  bool newline() const { return !end() && (b[p] == '\n' || (b[p] == '\r' && p + 1 < b.size() && b[p + 1] == '\n')); }
  void eatNewline() { p += b[p] == '\r' ? 2 : 1; }
  // to the end of the line, which holds nothing but a comment
  bool restOfLine() {
    ws();
    if (!end() && b[p] == '#')
      while (!end() && !newline()) {
        const unsigned char c = (unsigned char)b[p];
        if (c == '\r' && p + 1 == b.size()) return fail("lone carriage return");
        if ((c < 32 && c != '\t') || c == 127) return fail("control character in a comment");
        ++p;
      }
    if (end()) return true;
    if (!newline()) return fail("something after the value");
    eatNewline();
    return true;
  }
  static void utf8(std::string& o, uint32_t r) {
    if (r < 0x80) o += (char)r;
    else if (r < 0x800) { o += (char)(0xC0 | r >> 6); o += (char)(0x80 | (r & 63)); }
    else if (r < 0x10000) { o += (char)(0xE0 | r >> 12); o += (char)(0x80 | (r >> 6 & 63)); o += (char)(0x80 | (r & 63)); }
    else { o += (char)(0xF0 | r >> 18); o += (char)(0x80 | (r >> 12 & 63)); o += (char)(0x80 | (r >> 6 & 63)); o += (char)(0x80 | (r & 63)); }
  }
  bool string(std::string& out) {
    const char q = b[p++];
    if (p + 1 < b.size() && b[p] == q && b[p + 1] == q) return fail("multi-line string");
    while (true) {
      if (end()) return ended("unfinished string");
      const unsigned char c = (unsigned char)b[p];
      if (c == (unsigned char)q) { ++p; return true; }
      if ((c < 32 && c != '\t') || c == 127) return fail("control character in a string");
      if (c != '\\' || q == '\'') { out += (char)c; ++p; continue; }
      ++p;
      if (end()) return ended("unfinished string");
      switch (b[p]) {
        case 'b': out += '\b'; ++p; break;
        case 't': out += '\t'; ++p; break;
        case 'n': out += '\n'; ++p; break;
        case 'f': out += '\f'; ++p; break;
        case 'r': out += '\r'; ++p; break;
        case '"': out += '"'; ++p; break;
        case '\\': out += '\\'; ++p; break;
        case 'u': case 'U': {
          const int n = b[p++] == 'u' ? 4 : 8;
          uint32_t r = 0;
          for (int i = 0; i < n; ++i) {
            if (end()) return ended("unfinished string");
            const char h = b[p];
            uint32_t d;
            if (h >= '0' && h <= '9') d = (uint32_t)(h - '0');
            else if (h >= 'a' && h <= 'f') d = (uint32_t)(h - 'a' + 10);
            else if (h >= 'A' && h <= 'F') d = (uint32_t)(h - 'A' + 10);
            else return fail("wrong escape");
            r = r << 4 | d;
            ++p;
          }
          if (r > 0x10FFFF || (r >= 0xD800 && r < 0xE000)) return fail("wrong code point");
          utf8(out, r);
          break;
        }
        default: return fail("wrong escape");
      }
    }
  }
  static bool bareChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; }
  bool key(std::string& out) {
    if (b[p] == '"' || b[p] == '\'') return string(out);
    const size_t s = p;
    while (!end() && bareChar(b[p])) ++p;
    if (p == s) return fail("no key");
    out = b.substr(s, p - s);
    return true;
  }
  bool digits(std::string& t) {
    if (end() || b[p] < '0' || b[p] > '9') return fail("no digit");
    while (true) {
      t += b[p++];
      if (end()) return true;
      if (b[p] == '_') {
        if (p + 1 >= b.size() || b[p + 1] < '0' || b[p + 1] > '9') return fail("misplaced _");
        ++p;
      } else if (b[p] < '0' || b[p] > '9') return true;
    }
  }
  bool number(V& v) {
    std::string t;
    if (b[p] == '+' || b[p] == '-') t += b[p++];
    const size_t first = t.size();
    if (!digits(t)) return false;
    if (t[first] == '0' && t.size() > first + 1) return fail("leading zero");
    bool real = false;
    if (!end() && b[p] == '.') { real = true; t += '.'; ++p; if (!digits(t)) return false; }
    if (!end() && (b[p] == 'e' || b[p] == 'E')) {
      real = true;
      t += 'e';
      ++p;
      if (!end() && (b[p] == '+' || b[p] == '-')) t += b[p++];
      if (!digits(t)) return false;
    }
    if (!end() && (bareChar(b[p]) || b[p] == '.' || b[p] == '+' || b[p] == ':')) return fail("wrong number");
    if (real) { v = V::real(std::strtod(t.c_str(), nullptr)); return true; }
    errno = 0;
    const long long i = std::strtoll(t.c_str(), nullptr, 10);
    if (errno == ERANGE) return fail("integer out of range");
    v = V::integer(i);
    return true;
  }
  // white space, new lines and comments inside an array
  bool blank() {
    while (true) {
      ws();
      if (end()) return ended("unfinished array");
      if (newline()) { eatNewline(); continue; }
      if (b[p] != '#') return true;
      while (!end() && !newline()) {
        const unsigned char c = (unsigned char)b[p];
        if ((c < 32 && c != '\t') || c == 127) return fail("control character in a comment");
        ++p;
      }
    }
  }
  bool value(V& v) {
    if (end()) return fail("no value");
    const char c = b[p];
    if (c == '"' || c == '\'') { v = V::str(""); return string(v.s); }
    if (c == '+' || c == '-' || (c >= '0' && c <= '9')) return number(v);
    for (int x = 0; x < 2; ++x) {
      const char* w = x ? "true" : "false";
      if (b.compare(p, std::strlen(w), w) == 0) {
        p += std::strlen(w);
        if (!end() && bareChar(b[p])) return fail("wrong value");
        v = V::boolean(x != 0);
        return true;
      }
    }
    if (c == '[') {
      if (++depth > 400) return fail("too deep");
      ++p;
      v = V::arr();
      v.closed = true;
      if (!blank()) return false;
      while (b[p] != ']') {
        v.a.emplace_back();
        if (!value(v.a.back())) return false;
        if (!blank()) return false;
        if (b[p] == ',') { ++p; if (!blank()) return false; }
        else if (b[p] != ']') return fail("wrong array");
      }
      ++p;
      --depth;
      return true;
    }
    if (c == '{') {
      if (++depth > 400) return fail("too deep");
      ++p;
      v = V::tab();
      v.closed = v.defined = true;
      ws();
      if (end()) return ended("unfinished inline table");
      if (b[p] == '}') { ++p; --depth; return true; }
      while (true) {
        ws();
        if (end()) return ended("unfinished inline table");
        std::string k;
        if (!key(k)) return false;
        ws();
        if (end()) return ended("unfinished inline table");
        if (b[p] != '=') return fail("no =");
        ++p;
        ws();
        if (end()) return ended("unfinished inline table");
        V x;
        if (!value(x)) return false;
        if (v.find(k)) return fail("key written twice");
        v.t.emplace_back(k, x);
        ws();
        if (end()) return ended("unfinished inline table");
        if (b[p] == '}') { ++p; --depth; return true; }
        if (b[p] != ',') return fail("wrong inline table");
        ++p;
      }
    }
    return fail("wrong value");
  }
  bool header(V& root, V*& cur) {
    ++p;
    const bool list = !end() && b[p] == '[';
    if (list) ++p;
    V* t = &root;
    while (true) {
      ws();
      if (end()) return ended("unfinished header");
      std::string k;
      if (!key(k)) return false;
      ws();
      if (end()) return ended("unfinished header");
      const bool last = b[p] == ']';
      if (!last && b[p] != '.') return fail("wrong header");
      ++p;
      V* n = t->find(k);
      if (!last) {
        if (!n) { t->t.emplace_back(k, V::tab()); n = &t->t.back().second; }
        else if (n->closed) return fail("extends an inline value");
        else if (n->k == V::Arr) n = &n->a.back();
        else if (n->k != V::Tab) return fail("not a table");
        t = n;
        continue;
      }
      if (list) {
        if (end()) return ended("unfinished header");
        if (b[p] != ']') return fail("wrong header");
        ++p;
        if (!n) { t->t.emplace_back(k, V::arr()); n = &t->t.back().second; }
        else if (n->k != V::Arr || n->closed) return fail("not an array of tables");
        n->a.push_back(V::tab());
        cur = &n->a.back();
        cur->defined = true;
      } else {
        if (!n) { t->t.emplace_back(k, V::tab()); n = &t->t.back().second; }
        else if (n->k != V::Tab || n->closed || n->defined) return fail("table written twice");
        n->defined = true;
        cur = n;
      }
      return restOfLine();
    }
  }
  bool read(V& root) {
    root = V::tab();
    V* cur = &root;
    while (true) {
      ws();
      if (end()) return true;
      if (newline()) { eatNewline(); continue; }
      if (b[p] == '#') { if (!restOfLine()) return false; continue; }
      if (b[p] == '[') { if (!header(root, cur)) return false; continue; }
      std::string k;
      if (!key(k)) return false;
      ws();
      if (end() || b[p] != '=') return fail("no =");
      ++p;
      ws();
      V v;
      if (!value(v)) return false;
      if (cur->find(k)) return fail("key written twice");
      cur->t.emplace_back(k, v);
      if (!restOfLine()) return false;
    }
  }
};
struct Parsed { bool valid = false, cut = false; std::string why; V v; };
inline Parsed parse(const std::string& bytes) {
  Parsed o;
  Reader r{bytes};
  o.valid = r.read(o.v);
  o.cut = r.cut;
  o.why = r.why + " (at byte " + std::to_string(r.p) + ")";
  return o;
}
}  // namespace toml
