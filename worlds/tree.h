// Drawn scalars, texts and keys of configurations.
#pragma once
#include <cmath>

#include "common.h"
#include "toml_ref.h"

namespace tree {
using namespace sim;
using toml::V;
inline double drawDouble(Stream& s) {
  while (true) {
    double d;
    switch (draw(8)) {
      case 0: return (double)(int64_t)(s.next() % 2001) - 1000;
      case 1: return ((double)(int64_t)(s.next() % 20001) - 10000) / 100;
      case 2: return draw(2) ? 0.0 : -0.0;
      case 3: { static const double x[] = {0.1, 1e22, 1e23, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 123456789012345678.0, 0.3, 1.0 / 3, 9007199254740993.0, 1e-7}; return x[draw(12)]; }
      case 4: return 1.0 + (double)(s.next() >> 11) / 9007199254740992.0;
      default: { uint64_t b = s.next(); std::memcpy(&d, &b, 8); if (std::isfinite(d)) return d; }
    }
  }
}
inline int64_t drawInt(Stream& s) {
  switch (draw(5)) {
    case 0: return (int64_t)(s.next() % 201) - 100;
    case 1: { static const int64_t x[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 2147483647, -2147483648ll, 4294967296ll, 9007199254740993ll}; return x[draw(10)]; }
    case 2: return (int64_t)(s.next() % 2000001) - 1000000;
    default: return (int64_t)s.next() >> (s.next() % 64);
  }
}
inline std::string drawText(Stream& s, bool key) {
  size_t n;
  switch (draw(6)) {
    case 0: n = 1 + draw(4); break;
    case 1: n = 0; break;
    case 2: n = draw(40); break;
    case 3: n = 20 + draw(6); break;  // around the inline capacity
    case 4: n = draw(key ? 60 : 300); break;
    default: n = key ? draw(12) : flip(4) ? 100 + draw(flip(12) ? 20000 : thorough() ? 9000 : 2500) : draw(12); break;
  }
  const int style = (int)draw(6);
  static const char special[] = "\"'\\#=[]{}.,_-+\t\n\r\b\f \x1f\x7f\x01/:;";
  std::string o;
  while (o.size() < n) {
    const uint64_t r = s.next();
    const int pickd = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? 2 : style == 3 ? 3 : (int)(r % 5);
    switch (pickd) {
      case 0: case 4: o += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-"[(r >> 8) % 44]; break;
      case 1: o += special[(r >> 8) % (sizeof special - 1)]; break;
      case 2: {
        static const uint32_t cps[] = {0xE9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0xD7FF, 0xE000, 0x10000, 0x1F600, 0x10FFFF, 0x80, 0xA0};
        toml::Reader::utf8(o, cps[(r >> 8) % 12]);
        break;
      }
      default: o += (r >> 8) % 12 == 0 ? '\0' : (char)(32 + (r >> 16) % 95);
    }
  }
  return o;
}
inline std::string drawKey(Stream& s, const V& tab) {
  for (int i = 0; i < 4; ++i) {
    std::string k;
    switch (draw(4)) {
      case 0: k = "k" + std::to_string(tab.t.size()); break;
      case 1: { static const char* w[] = {"name", "Value", "a-b", "x_1", "1234", "true", "3", "-", "_", "e5"}; k = w[draw(10)]; break; }
      default: k = drawText(s, true); break;
    }
    if (!tab.find(k)) return k;
  }
  return "key" + std::to_string(tab.t.size());
}
inline il::String ilText(const std::string& t) {
  return il::isAscii(t.data(), (il::int_t)t.size()) ? il::String{il::StringType::Ascii, t.data(), (il::int_t)t.size()}
                                                    : il::String{il::StringType::Utf8, t.data(), (il::int_t)t.size()};
}
inline std::string text(const il::String& s) { return std::string(s.asCString(), (size_t)s.size()); }
}  // namespace tree
