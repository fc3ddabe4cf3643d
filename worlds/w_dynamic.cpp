// Dynamically typed values (C18).
#include <il/Dynamic.h>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 3;
enum Kind {
  kVoid, kBool, kU8, kI8, kU16, kI16, kInt, kF32, kF64, kScalars,
  kStr = kScalars, kArr, kMap, kMapArr,
  kAU8, kAI8, kAU16, kAI16, kAU32, kAI32, kAU64, kAI64, kAF64, k2F64, k2U8, kKinds
};
const char* const kName[] = {"void", "bool", "uint8", "int8", "uint16", "int16", "integer", "float", "double", "string", "array", "map", "maparray",
                             "uint8[]", "int8[]", "uint16[]", "int16[]", "uint32[]", "int32[]", "uint64[]", "int64[]", "double[]", "double[,]", "uint8[,]"};
// The model: a value, its children in the order of insertion.
struct Val {
  Kind k = kVoid;
  uint64_t bits = 0;           // scalars: the representation; arrays of numbers: their seed
  int n = 0, m = 0;            // sizes of strings and arrays of numbers
  int way = 0;                 // how to build it
  std::vector<int> key;        // maps: the keys
  std::vector<Val> c;          // children
  size_t weight() const { size_t w = 1; for (auto& x : c) w += x.weight(); return w; }
};
typedef il::Array<il::Dynamic> DArr;
typedef il::Map<il::String, il::Dynamic> DMap;
typedef il::MapArray<il::String, il::Dynamic> DMapArr;
const int kKeys = 30;
int keyText(int id, char* b) {
  static const int len[] = {1, 2, 21, 22, 23, 24, 40, 5};
  const int n = id == 0 ? 0 : len[id % 8];
  for (int i = 0; i < n; ++i) b[i] = (char)(i + 1 == n ? '0' + id : 'k');
  b[n] = 0;
  return n;
}
il::String keyOf(int id) { char b[64]; const int n = keyText(id, b); return il::String{il::StringType::Utf8, b, (il::int_t)n}; }
// element i of the array of numbers with seed s
uint64_t cell(uint64_t s, int i) {
  uint64_t z = s + 0x9E3779B97F4A7C15ull * (uint64_t)(i + 1);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  return z ^ (z >> 31);
}
char letter(uint64_t s, int i) { return (char)(cell(s, i) & 0x7F); }
template <typename T> T num(uint64_t bits) { T x; std::memcpy(&x, &bits, sizeof x); return x; }
template <> bool num<bool>(uint64_t bits) { return (bits & 1) != 0; }
template <typename T> bool sameBits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof a) == 0; }

uint64_t drawBits() {
  switch (pick(5)) {
    case 0: return pick(3);
    case 1: return ~(uint64_t)pick(3);
    case 2: { const double d = (double)pick(100) / 4 - 3; uint64_t b; std::memcpy(&b, &d, 8); return b; }
    case 3: { static const uint64_t sp[] = {0x8000000000000000ull, 0x7FF0000000000000ull, 0xFFF8000000000001ull, 0x7FC00001ull, 0x80000000ull, 0x8000ull, 0x80ull}; return sp[pick(7)]; }
    default: return (pick(1u << 16) << 48) ^ (pick(1u << 16) << 32) ^ (pick(1u << 16) << 16) ^ pick(1u << 16);
  }
}
Val drawVal(int depth) {
  Val v;
  if (depth <= 0) {
    const int r = (int)pick(6);
    v.k = r < 3 ? (Kind)pick(kScalars) : r < 5 ? kStr : (Kind)(kAU8 + (int)pick(kKinds - kAU8));
  } else {
    const int r = (int)pick(8);
    v.k = r < 2 ? (Kind)pick(kScalars) : r < 3 ? kStr : r < 6 ? (Kind)(kArr + (int)pick(3)) : (Kind)(kAU8 + (int)pick(kKinds - kAU8));
  }
  v.bits = drawBits();
  v.way = (int)pick(4);
  if (v.k == kBool) v.bits &= 1;
  if (v.k == kVoid) v.bits = 0;
  if (v.k == kStr) {
    static const int len[] = {0, 3, 22, 23, 24, 60};
    v.n = pick(2) ? len[pick(6)] : scaled((int)pick(30), 4000);
    if (v.way == 3) v.n = 4;  // the literal "abcd"
  } else if (v.k >= kAU8) {
    v.n = scaled((int)pick(pick(3) ? 6 : 40), 2000);
    if (v.k >= k2F64) { v.n = (int)pick(5); v.m = (int)pick(5); }
  } else if (v.k >= kArr) {
    const int c = (int)pick(pick(3) ? 4 : 9);
    for (int i = 0; i < c; ++i) {
      if (v.k != kArr) {
        int id = (int)pick(kKeys);
        for (int j = 0; j < (int)v.key.size(); ++j) if (v.key[(size_t)j] == id) { id = (id + 1) % kKeys; j = -1; }
        v.key.push_back(id);
      }
      v.c.push_back(drawVal(depth - 1));
    }
  }
  return v;
}

// ------------------------------------------------- inside the code under test
void build(il::Dynamic& d, const Val& v);
template <typename T>
void buildArray(il::Dynamic& d, const Val& v) {
  il::Array<T> a{};
  if (v.way & 1) a.Reserve((il::int_t)v.n);
  for (int i = 0; i < v.n; ++i) a.Append(num<T>(cell(v.bits, i)));
  if (v.way & 2) d = il::Dynamic{a};
  else d = il::Dynamic{std::move(a)};
}
template <typename T>
void buildArray2D(il::Dynamic& d, const Val& v) {
  il::Array2D<T> a{(il::int_t)v.n, (il::int_t)v.m};
  for (int j = 0; j < v.m; ++j)
    for (int i = 0; i < v.n; ++i) a(i, j) = num<T>(cell(v.bits, i + 7 * j));
  if (v.way & 2) d = il::Dynamic{a};
  else d = il::Dynamic{std::move(a)};
}
template <typename T>
void buildScalar(il::Dynamic& d, const Val& v) {
  if (v.way & 1) d = il::Dynamic{num<T>(v.bits)};
  else d = num<T>(v.bits);
}
void build(il::Dynamic& d, const Val& v) {
  switch (v.k) {
    case kVoid: d = v.way & 1 ? il::Dynamic{} : il::Dynamic{il::Type::Void}; break;
    case kBool: buildScalar<bool>(d, v); break;
    case kU8: buildScalar<unsigned char>(d, v); break;
    case kI8: buildScalar<signed char>(d, v); break;
    case kU16: buildScalar<unsigned short>(d, v); break;
    case kI16: buildScalar<short>(d, v); break;
    case kInt:
      if ((v.way & 2) && (int64_t)v.bits == (int)v.bits) { if (v.way & 1) d = il::Dynamic{(int)v.bits}; else d = (int)v.bits; }
      else buildScalar<il::int_t>(d, v);
      break;
    case kF32: buildScalar<float>(d, v); break;
    case kF64: buildScalar<double>(d, v); break;
    case kStr: {
      if (v.way == 3) { d = il::Dynamic{"abcd"}; break; }
      char b[4096];
      for (int i = 0; i < v.n; ++i) b[i] = letter(v.bits, i);
      if (v.way == 2) { d = il::Dynamic{il::StringType::Utf8, b, (il::int_t)v.n}; break; }
      il::String s{il::StringType::Utf8, b, (il::int_t)v.n};
      if (v.way == 1) d = std::move(s);
      else d = s;
      break;
    }
    case kArr: {
      DArr a{};
      for (size_t i = 0; i < v.c.size(); ++i) {
        il::Dynamic e{};
        build(e, v.c[i]);
        if (v.way & 1) a.Append(e);
        else a.Append(std::move(e));
      }
      d = v.way & 2 ? il::Dynamic{a} : il::Dynamic{std::move(a)};
      break;
    }
    case kMap: {
      DMap a{};
      for (size_t i = 0; i < v.c.size(); ++i) {
        il::Dynamic e{};
        build(e, v.c[i]);
        if (v.way & 1) a.Set(keyOf(v.key[i]), e);
        else a.Set(keyOf(v.key[i]), std::move(e));
      }
      d = v.way & 2 ? il::Dynamic{a} : il::Dynamic{std::move(a)};
      break;
    }
    case kMapArr: {
      DMapArr a{};
      for (size_t i = 0; i < v.c.size(); ++i) {
        il::Dynamic e{};
        build(e, v.c[i]);
        if (v.way & 1) a.Set(keyOf(v.key[i]), e);
        else a.Set(keyOf(v.key[i]), std::move(e));
      }
      d = v.way & 2 ? il::Dynamic{a} : il::Dynamic{std::move(a)};
      break;
    }
    case kAU8: buildArray<unsigned char>(d, v); break;
    case kAI8: buildArray<signed char>(d, v); break;
    case kAU16: buildArray<unsigned short>(d, v); break;
    case kAI16: buildArray<short>(d, v); break;
    case kAU32: buildArray<unsigned int>(d, v); break;
    case kAI32: buildArray<int>(d, v); break;
    case kAU64: buildArray<il::uint_t>(d, v); break;
    case kAI64: buildArray<il::int_t>(d, v); break;
    case kAF64: buildArray<double>(d, v); break;
    case k2F64: buildArray2D<double>(d, v); break;
    case k2U8: buildArray2D<unsigned char>(d, v); break;
    default: break;
  }
}
// 0 when d holds the value v; what differs otherwise.
const char* differs(const il::Dynamic& d, const Val& v);
template <typename T>
const char* differsArray(const il::Dynamic& d, const Val& v) {
  const il::Array<T>& a = d.as<il::Array<T>>();
  if (a.size() != v.n) return "the size of an array";
  for (int i = 0; i < v.n; ++i)
    if (!sameBits(a[i], num<T>(cell(v.bits, i)))) return "an element of an array of numbers";
  return nullptr;
}
template <typename T>
const char* differsArray2D(const il::Dynamic& d, const Val& v) {
  const il::Array2D<T>& a = d.as<il::Array2D<T>>();
  if (a.size(0) != v.n || a.size(1) != v.m) return "the shape of a two-dimensional array";
  for (int j = 0; j < v.m; ++j)
    for (int i = 0; i < v.n; ++i)
      if (!sameBits(a(i, j), num<T>(cell(v.bits, i + 7 * j)))) return "an element of a two-dimensional array";
  return nullptr;
}
template <typename T>
const char* differsScalar(const il::Dynamic& d, const Val& v) { return sameBits(d.to<T>(), num<T>(v.bits)) ? nullptr : "a number"; }
const char* differs(const il::Dynamic& d, const Val& v) {
  const bool is[kKinds] = {d.is<void>(), d.is<bool>(), d.is<unsigned char>(), d.is<signed char>(), d.is<unsigned short>(), d.is<short>(), d.is<il::int_t>(), d.is<float>(), d.is<double>(),
                           d.is<il::String>(), d.is<DArr>(), d.is<DMap>(), d.is<DMapArr>(),
                           d.is<il::Array<unsigned char>>(), d.is<il::Array<signed char>>(), d.is<il::Array<unsigned short>>(), d.is<il::Array<short>>(), d.is<il::Array<unsigned int>>(),
                           d.is<il::Array<int>>(), d.is<il::Array<il::uint_t>>(), d.is<il::Array<il::int_t>>(), d.is<il::Array<double>>(), d.is<il::Array2D<double>>(), d.is<il::Array2D<unsigned char>>()};
  for (int k = 0; k < kKinds; ++k)
    if (is[k] != (k == v.k)) return "the kind";
  if (d.is<il::Array<float>>() || d.is<il::Array2D<int>>()) return "the kind";
  switch (v.k) {
    case kVoid: return nullptr;
    case kBool: return differsScalar<bool>(d, v);
    case kU8: return differsScalar<unsigned char>(d, v);
    case kI8: return differsScalar<signed char>(d, v);
    case kU16: return differsScalar<unsigned short>(d, v);
    case kI16: return differsScalar<short>(d, v);
    case kInt: return differsScalar<il::int_t>(d, v);
    case kF32: return differsScalar<float>(d, v);
    case kF64: return differsScalar<double>(d, v);
    case kStr: {
      const il::String& s = d.as<il::String>();
      if (s.size() != v.n) return "the size of a string";
      const char* p = s.asCString();
      for (int i = 0; i < v.n; ++i)
        if (p[i] != (v.way == 3 ? "abcd"[i] : letter(v.bits, i))) return "a byte of a string";
      return p[v.n] == 0 ? nullptr : "the end of a string";
    }
    case kArr: {
      const DArr& a = d.as<DArr>();
      if (a.size() != (il::int_t)v.c.size()) return "the size of an array of values";
      for (size_t i = 0; i < v.c.size(); ++i)
        if (const char* w = differs(a[(il::int_t)i], v.c[i])) return w;
      return nullptr;
    }
    case kMap: {
      const DMap& a = d.as<DMap>();
      if (a.nbElements() != (il::int_t)v.c.size()) return "the size of a map";
      for (size_t i = 0; i < v.c.size(); ++i) {
        const il::spot_t s = a.search(keyOf(v.key[i]));
        if (!a.found(s)) return "a key of a map";
        if (const char* w = differs(a.value(s), v.c[i])) return w;
      }
      return nullptr;
    }
    case kMapArr: {
      const DMapArr& a = d.as<DMapArr>();
      if (a.nbElements() != (il::int_t)v.c.size()) return "the size of an ordered map";
      size_t i = 0;
      for (il::spot_t s = a.spotBegin(); s != a.spotEnd(); s = a.next(s), ++i) {
        if (i >= v.c.size()) return "the iteration of an ordered map";
        if (!(a.key(s) == keyOf(v.key[i]))) return "the order of an ordered map";
        if (const char* w = differs(a.value(s), v.c[i])) return w;
        const il::spot_t t = a.search(keyOf(v.key[i]));
        if (!a.found(t)) return "a key of an ordered map";
      }
      return i == v.c.size() ? nullptr : "the iteration of an ordered map";
    }
    case kAU8: return differsArray<unsigned char>(d, v);
    case kAI8: return differsArray<signed char>(d, v);
    case kAU16: return differsArray<unsigned short>(d, v);
    case kAI16: return differsArray<short>(d, v);
    case kAU32: return differsArray<unsigned int>(d, v);
    case kAI32: return differsArray<int>(d, v);
    case kAU64: return differsArray<il::uint_t>(d, v);
    case kAI64: return differsArray<il::int_t>(d, v);
    case kAF64: return differsArray<double>(d, v);
    case k2F64: return differsArray2D<double>(d, v);
    case k2U8: return differsArray2D<unsigned char>(d, v);
    default: return "the kind";
  }
}
// The part of root reached along the path; keys are those of the model.
struct Path {
  int slot = 0;
  std::vector<int> at;   // the children to follow
  std::vector<int> key;  // the keys they have
};
il::Dynamic& node(il::Dynamic& root, const Path& p) {
  il::Dynamic* d = &root;
  for (size_t i = 0; i < p.at.size(); ++i) {
    if (d->type() == il::Type::ArrayOfDynamic) d = &d->As<DArr>()[(il::int_t)p.at[i]];
    else if (d->type() == il::Type::MapStringToDynamic) { DMap& m = d->As<DMap>(); d = &m.Value(m.search(keyOf(p.key[i]))); }
    else { DMapArr& m = d->As<DMapArr>(); d = &m.Value(m.search(keyOf(p.key[i]))); }
  }
  return *d;
}
bool prefix(const Path& a, const Path& b) {  // b is a or a part of a
  if (a.slot != b.slot || a.at.size() > b.at.size()) return false;
  for (size_t i = 0; i < a.at.size(); ++i) if (a.at[i] != b.at[i]) return false;
  return true;
}

struct World {
  Holder<il::Dynamic> h[kSlots];
  Val m[kSlots];

  Val& val(const Path& p) {
    Val* v = &m[p.slot];
    for (int i : p.at) v = &v->c[(size_t)i];
    return *v;
  }
  Path drawPath(int slot) {
    Path p;
    p.slot = slot;
    Val* v = &m[slot];
    while (!v->c.empty() && pick(3)) {
      const int i = (int)pick(v->c.size());
      p.at.push_back(i);
      p.key.push_back(v->key.empty() ? -1 : v->key[(size_t)i]);
      v = &v->c[(size_t)i];
    }
    return p;
  }
  bool check(int k, const char* what) {
    const char* w = nullptr;
    if (!sut("reading", [&] { w = differs(*h[k], m[k]); })) return false;
    SIM_CHECK(!w, "wrong-value", "%s: %s read back from value %d (a %s) is not what was stored", what, w, k, kName[m[k].k]);
    evt(what, k, (int)m[k].k, (uint64_t)m[k].weight());
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    const int j = (int)pick(kSlots);
    switch (pick(4)) {
      case 0: m[k] = Val(); return sut("Dynamic()", [&] { new (p) il::Dynamic{}; });
      case 1: {
        static const il::Type t[] = {il::Type::Void, il::Type::Bool, il::Type::UInt8, il::Type::Int8, il::Type::UInt16, il::Type::Int16, il::Type::Integer, il::Type::Single, il::Type::Double};
        m[k] = Val();
        m[k].k = (Kind)pick(kScalars);
        return sut("Dynamic(type)", [&] { new (p) il::Dynamic{t[m[k].k]}; });
      }
      default:
        if (j != k && h[j].live() && pick(2)) {
          const Path f = drawPath(j);
          m[k] = val(f);
          if (pick(2)) return sut("copy construction", [&] { const il::Dynamic& s = node(*h[j], f); new (p) il::Dynamic(s); });
          if (!sut("move construction", [&] { il::Dynamic& s = node(*h[j], f); new (p) il::Dynamic(std::move(s)); s = il::Dynamic{}; })) return false;
          val(f) = Val();
          return true;
        }
        m[k] = drawVal((int)pick(4));
        return sut("construction", [&] { new (p) il::Dynamic{}; build(*static_cast<il::Dynamic*>(p), m[k]); });
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    const Path p = drawPath(k);
    switch (pick(14)) {
      case 0: case 1: case 2: {  // another value in its place
        const Val v = drawVal((int)pick(p.at.size() > 2 ? 1 : 3));
        val(p) = v;
        return sut("assignment", [&] { build(node(*h[k], p), v); });
      }
      case 3: case 4: case 5: case 6: {  // a part of any value copied over a part of any value
        const int j = (int)pick(kSlots);
        if (!h[j].live()) return true;
        const Path f = pick(2) ? drawPath(k) : drawPath(j);
        if (!h[f.slot].live() || val(f).weight() + m[k].weight() > 60) return true;
        const Val v = val(f);
        val(p) = v;
        if (prefix(p, f) && f.at.size() > p.at.size()) probe("own-part");
        return sut("copy assignment", [&] { il::Dynamic& d = node(*h[k], p); const il::Dynamic& s = node(*h[f.slot], f); d = s; });
      }
      case 7: case 8: {
        const int j = (int)pick(kSlots);
        if (!h[j].live()) return true;
        const Path f = pick(2) ? drawPath(k) : drawPath(j);
        const bool inside = prefix(p, f), around = prefix(f, p);
        if (around && !inside) return true;  // a value moved into its own part
        const Val v = val(f);
        if (inside && around) {
          val(p) = Val();
          return sut("self move assignment", [&] { il::Dynamic& d = node(*h[k], p); il::Dynamic& s = d; d = std::move(s); d = il::Dynamic{}; });
        }
        if (!inside) val(f) = Val();
        val(p) = v;
        return sut("move assignment", [&] {
          il::Dynamic& d = node(*h[k], p);
          il::Dynamic& s = node(*h[f.slot], f);
          d = std::move(s);
          if (!inside) s = il::Dynamic{};
        });
      }
      case 9: {  // its own string
        Val& v = val(p);
        if (v.k == kStr) return sut("assignment of its own string", [&] { il::Dynamic& d = node(*h[k], p); const il::String& s = d.as<il::String>(); d = s; });
        for (size_t i = 0; i < v.c.size(); ++i)
          if (v.c[i].k == kStr) {
            Path f = p;
            f.at.push_back((int)i);
            f.key.push_back(v.key.empty() ? -1 : v.key[i]);
            const Val s = v.c[i];
            v = s;
            if (pick(2)) return sut("assignment of a string of its own", [&] { il::Dynamic& d = node(*h[k], p); const il::String& t = node(*h[k], f).as<il::String>(); d = t; });
            return sut("assignment of a moved string of its own", [&] { il::Dynamic& d = node(*h[k], p); il::String& t = node(*h[k], f).As<il::String>(); d = std::move(t); });
          }
        return true;
      }
      case 10: case 11: {  // a container it holds, changed in place
        Val& v = val(p);
        if (v.k != kArr && v.k != kMap && v.k != kMapArr) return true;
        if (v.c.size() > 12) return true;
        const Val e = drawVal((int)pick(2));
        if (v.k == kArr) {
          v.c.push_back(e);
          return sut("Append", [&] { il::Dynamic x{}; build(x, e); DArr& a = node(*h[k], p).As<DArr>(); if (e.way & 1) a.Append(x); else a.Append(std::move(x)); });
        }
        const int id = (int)pick(kKeys);
        size_t i = 0;
        while (i < v.key.size() && v.key[i] != id) ++i;
        if (i < v.key.size()) v.c[i] = e;
        else { v.key.push_back(id); v.c.push_back(e); }
        if (v.k == kMap) return sut("Map::Set", [&] { il::Dynamic x{}; build(x, e); DMap& a = node(*h[k], p).As<DMap>(); if (e.way & 1) a.Set(keyOf(id), x); else a.Set(keyOf(id), std::move(x)); });
        return sut("MapArray::Set", [&] { il::Dynamic x{}; build(x, e); DMapArr& a = node(*h[k], p).As<DMapArr>(); if (e.way & 1) a.Set(keyOf(id), x); else a.Set(keyOf(id), std::move(x)); });
      }
      case 12: {  // fewer elements
        Val& v = val(p);
        if (v.k == kArr && !v.c.empty()) {
          const int n = (int)pick(v.c.size());
          v.c.resize((size_t)n);
          return sut("Resize", [&] { node(*h[k], p).As<DArr>().Resize((il::int_t)n); });
        }
        if (v.k == kMap && !v.c.empty()) {
          const size_t i = (size_t)pick(v.c.size());
          const int id = v.key[i];
          v.c.erase(v.c.begin() + (long)i);
          v.key.erase(v.key.begin() + (long)i);
          return sut("erase", [&] { DMap& a = node(*h[k], p).As<DMap>(); a.erase(a.search(keyOf(id))); });
        }
        return true;
      }
      default: return h[k].destroy("destruction") && (pick(2) || construct(k));
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
}  // namespace

void world_dynamic() {
  drawMemory(refusals());
  World w;
  w.run();
}
