// Independent reader and writer of the NumPy 1.0 file format.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

namespace npy {
struct Parsed {
  bool valid = false;
  std::string why, descr, payload;
  bool fortran = false;
  std::vector<int64_t> shape;
};
inline std::string show(const std::vector<int64_t>& s) {
  std::string r = "(";
  for (auto x : s) r += std::to_string((long long)x) + ",";
  return r + ")";
}
inline size_t itemsize(const std::string& d) {
  if (d.size() < 3) return 4;
  int n = std::atoi(d.c_str() + 2);
  if (d[1] == 'U') n *= 4;
  return n ? (size_t)n : 4;
}
// A strict reader: header is a Python literal dictionary with exactly the three keys.
inline Parsed parse(const std::string& b) {
  Parsed p;
  auto bad = [&](const char* w) { p.valid = false; p.why = w; return p; };
  if (b.size() < 10 || b.compare(0, 6, "\x93NUMPY") != 0) return bad("magic");
  if (b[6] != 1 || b[7] != 0) return bad("version");
  size_t n = (size_t)(unsigned char)b[8] + 256u * (size_t)(unsigned char)b[9];
  if (b.size() < 10 + n) return bad("header shorter than announced");
  if ((10 + n) % 16 != 0) return bad("header length is not aligned");
  std::string h = b.substr(10, n);
  if (h.empty() || h.back() != '\n') return bad("header does not end with a newline");
  size_t i = 0;
  auto ws = [&] { while (i < h.size() && h[i] == ' ') ++i; };
  auto str = [&](std::string& s) {
    ws();
    if (i >= h.size() || (h[i] != '\'' && h[i] != '"')) return false;
    char q = h[i++];
    s.clear();
    while (i < h.size() && h[i] != q) s += h[i++];
    if (i >= h.size()) return false;
    ++i;
    return true;
  };
  ws();
  if (i >= h.size() || h[i] != '{') return bad("header is not a dictionary");
  ++i;
  bool hd = false, hf = false, hs = false;
  while (true) {
    ws();
    if (i < h.size() && h[i] == '}') { ++i; break; }
    std::string key;
    if (!str(key)) return bad("header key");
    ws();
    if (i >= h.size() || h[i] != ':') return bad("header colon");
    ++i;
    ws();
    if (key == "descr") {
      if (hd || !str(p.descr)) return bad("descr");
      hd = true;
    } else if (key == "fortran_order") {
      if (hf) return bad("fortran_order twice");
      if (h.compare(i, 4, "True") == 0) { p.fortran = true; i += 4; }
      else if (h.compare(i, 5, "False") == 0) { p.fortran = false; i += 5; }
      else return bad("fortran_order");
      hf = true;
    } else if (key == "shape") {
      if (hs || i >= h.size() || h[i] != '(') return bad("shape");
      ++i;
      bool comma = true;
      while (true) {
        ws();
        if (i < h.size() && h[i] == ')') { ++i; break; }
        if (!comma) return bad("shape separator");
        size_t a = i;
        while (i < h.size() && h[i] >= '0' && h[i] <= '9') ++i;
        if (i == a || i - a > 19) return bad("shape number");
        p.shape.push_back((int64_t)std::strtoull(h.substr(a, i - a).c_str(), nullptr, 10));
        ws();
        comma = i < h.size() && h[i] == ',';
        if (comma) ++i;
      }
      if (p.shape.size() == 1 && !comma) return bad("a one-element tuple needs a comma");
      hs = true;
    } else return bad("unknown header key");
    ws();
    if (i < h.size() && h[i] == ',') { ++i; continue; }
    ws();
    if (i < h.size() && h[i] == '}') { ++i; break; }
    return bad("header separator");
  }
  if (!hd || !hf || !hs) return bad("missing header key");
  while (i < h.size() - 1) { if (h[i] != ' ') return bad("characters after the dictionary"); ++i; }
  p.payload = b.substr(10 + n);
  p.valid = true;
  return p;
}
// order: the six orders of the keys (a reader must not depend on it); terse: no comma after the last one
struct Style { int align = 64; int extra_pad = 0; int order = 0; bool terse = false; };
inline std::string write(const std::string& descr, bool fortran, const std::vector<int64_t>& shape,
                         const std::string& payload, const Style& st) {
  std::string part[3];
  part[0] = "'descr': '" + descr + "'";
  part[1] = std::string("'fortran_order': ") + (fortran ? "True" : "False");
  std::string& h2 = part[2];
  h2 = "'shape': (";
  for (size_t i = 0; i < shape.size(); ++i) {
    h2 += std::to_string((long long)shape[i]);
    if (shape.size() == 1) h2 += ",";
    else if (i + 1 < shape.size()) h2 += ", ";
  }
  h2 += ")";
  static const char orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  std::string h = "{";
  for (int i = 0; i < 3; ++i) h += part[(int)orders[st.order % 6][i]] + (i < 2 || !st.terse ? ", " : "");
  h += "}";
  while ((10 + h.size() + 1) % (size_t)st.align) h += ' ';
  h += std::string((size_t)st.extra_pad, ' ');
  h += '\n';
  std::string b = "\x93NUMPY";
  b += '\x01';
  b += '\0';
  b += (char)(h.size() & 255);
  b += (char)(h.size() >> 8);
  return b + h + payload;
}
// C order payload of a 2D array to Fortran order (and back with the shape reversed).
inline std::string transpose(const std::string& c, const std::vector<int64_t>& shape, size_t es) {
  std::string f = c;
  int64_t n0 = shape[0], n1 = shape[1];
  for (int64_t i = 0; i < n0; ++i)
    for (int64_t j = 0; j < n1; ++j)
      f.replace((size_t)(j * n0 + i) * es, es, c, (size_t)(i * n1 + j) * es, es);
  return f;
}
}  // namespace npy
