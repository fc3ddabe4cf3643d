// .data world: C09 (save and load), C07 (handles, leaks).

#include "io_all.h"
#include "common.h"
#include "toml_ref.h"
#include "tree.h"

using namespace sim;
using namespace tree;

namespace {
const char* kName = "/simdisk/x.data";
const char* kOther = "/simdisk/other.data";
typedef il::MapArray<il::String, il::Dynamic> DMapArray;
typedef il::Map<il::String, il::Dynamic> DMap;
// rep of a V.  Dbl: 1 float.  Arr: 1 of double, 2 of double in dimension 2, 3
// of unsigned char in dimension 2, 4 of int.
enum { kUnsupported = 99 };

V drawValue(Stream& s) {
  switch (draw(9)) {
    case 0: return V::boolean(s.next() & 1);
    case 1: return V::integer(drawInt(s));
    case 2: return V::real(drawDouble(s));
    case 3: { uint64_t b = s.next(); double d; std::memcpy(&d, &b, 8); return V::real(d); }  // any bits
    case 4: return V::str(drawText(s, false));
    case 5: { V v = V::real((double)(float)((double)(int64_t)(s.next() % 20001) / 64 - 100)); v.rep = 1; return v; }
    case 6: {
      V v = V::arr();
      v.rep = 1;
      const size_t n = flip(8) ? draw(flip(8) ? 12000 : 600) : draw(8);
      for (size_t i = 0; i < n; ++i) { uint64_t b = s.next(); double d; std::memcpy(&d, &b, 8); v.a.push_back(V::real(d)); }
      return v;
    }
    default: {
      V v = V::arr();
      v.rep = 2 + (int)draw(2);
      v.n0 = (int64_t)draw(6);
      v.n1 = (int64_t)draw(6);
      if (flip(8)) { v.n0 = (int64_t)draw(flip(8) ? 400 : 40); v.n1 = (int64_t)draw(40); }
      for (int64_t i = 0; i < v.n0 * v.n1; ++i) {
        const uint64_t b = s.next();
        double d;
        std::memcpy(&d, &b, 8);
        v.a.push_back(v.rep == 2 ? V::real(d) : V::integer((int64_t)(b & 255)));
      }
      return v;
    }
  }
}
// A map of arrays of the same length, to be saved as an array of structures
V drawStruct(Stream& s, bool small_integers = true) {
  V v = V::tab();
  const size_t n = draw(5), m = draw(9);
  for (size_t i = 0; i < n; ++i) {
    std::string k = drawKey(s, v);
    V x = V::arr();
    x.rep = small_integers && draw(2) ? 4 : 1;
    for (size_t j = 0; j < m; ++j) x.a.push_back(x.rep == 4 ? V::integer((int32_t)s.next()) : V::real(drawDouble(s)));
    v.t.emplace_back(k, x);
  }
  return v;
}
V drawMap(Stream& s, int depth, int64_t& nodes) {
  V v = V::tab();
  const size_t n = depth == 0 ? (flip(20) ? 20 + draw(60) : draw(10)) : draw(5);
  for (size_t i = 0; i < n && nodes > 0; ++i) {
    --nodes;
    std::string k = drawKey(s, v);
    if (k.empty() && draw(8)) k = "nonempty" + std::to_string(i);
    if (v.find(k)) continue;
    if (depth < 4 && draw(8) == 7) v.t.emplace_back(k, drawMap(s, depth + 1, nodes));
    else v.t.emplace_back(k, drawValue(s));
  }
  return v;
}
bool emptyKey(const V& v) {
  for (auto& p : v.t) if (p.first.empty() || emptyKey(p.second)) return true;
  return false;
}

il::Dynamic make(const V& v);
void fill(const V& v, DMapArray& m) {
  for (auto& p : v.t) m.Set(ilText(p.first), make(p.second));
}
il::Dynamic make(const V& v) {
  switch (v.k) {
    case V::Bool: return il::Dynamic{v.b};
    case V::Int: return il::Dynamic{(il::int_t)v.i};
    case V::Dbl: return v.rep == 1 ? il::Dynamic{(float)v.d} : il::Dynamic{v.d};
    case V::Str: return il::Dynamic{ilText(v.s)};
    case V::Arr:
      switch (v.rep) {
        case 1: {
          il::Array<double> a{};
          if (v.i % 2) a.Reserve((il::int_t)v.a.size() + 3);
          for (auto& x : v.a) a.Append(x.d);
          return il::Dynamic{std::move(a)};
        }
        case 4: {
          il::Array<int> a{};
          for (auto& x : v.a) a.Append((int)x.i);
          return il::Dynamic{std::move(a)};
        }
        case 2: {
          il::Array2D<double> a{};
          if (v.a.size() % 3 == 1) a.Reserve((il::int_t)v.n0 + 2, (il::int_t)v.n1 + 1);
          a.Resize((il::int_t)v.n0, (il::int_t)v.n1);
          for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) a(i, j) = v.a[(size_t)(j * v.n0 + i)].d;
          return il::Dynamic{std::move(a)};
        }
        case 3: {
          il::Array2D<unsigned char> a{(il::int_t)v.n0, (il::int_t)v.n1};
          for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) a(i, j) = (unsigned char)v.a[(size_t)(j * v.n0 + i)].i;
          return il::Dynamic{std::move(a)};
        }
        default: {
          il::Array<il::Dynamic> a{};
          return il::Dynamic{std::move(a)};
        }
      }
    case V::Tab: { DMapArray m{}; fill(v, m); return il::Dynamic{std::move(m)}; }
    default: return v.i % 3 == 0 ? il::Dynamic{} : v.i % 3 == 1 ? il::Dynamic{(unsigned char)3} : il::Dynamic{DMap{}};
  }
}
V read(const il::Dynamic& d);
template <typename M>
V readMap(const M& m) {
  V v = V::tab();
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) v.t.emplace_back(text(m.key(i)), read(m.value(i)));
  return v;
}
V read(const il::Dynamic& d) {
  V v = V::arr();
  switch (d.type()) {
    case il::Type::Bool: return V::boolean(d.to<bool>());
    case il::Type::Integer: return V::integer(d.to<il::int_t>());
    case il::Type::Single: { v = V::real((double)d.to<float>()); v.rep = 1; return v; }
    case il::Type::Double: return V::real(d.to<double>());
    case il::Type::UnicodeString: return V::str(text(d.as<il::String>()));
    case il::Type::ArrayOfDouble: {
      v.rep = 1;
      const il::Array<double>& a = d.as<il::Array<double>>();
      for (il::int_t i = 0; i < a.size(); ++i) v.a.push_back(V::real(a[i]));
      return v;
    }
    case il::Type::ArrayOfInt32: {
      v.rep = 4;
      const il::Array<int>& a = d.as<il::Array<int>>();
      for (il::int_t i = 0; i < a.size(); ++i) v.a.push_back(V::integer(a[i]));
      return v;
    }
    case il::Type::Array2DOfDouble: {
      const il::Array2D<double>& a = d.as<il::Array2D<double>>();
      v.rep = 2; v.n0 = a.size(0); v.n1 = a.size(1);
      for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) v.a.push_back(V::real(a(i, j)));
      return v;
    }
    case il::Type::Array2DOfUInt8: {
      const il::Array2D<unsigned char>& a = d.as<il::Array2D<unsigned char>>();
      v.rep = 3; v.n0 = a.size(0); v.n1 = a.size(1);
      for (il::int_t j = 0; j < v.n1; ++j) for (il::int_t i = 0; i < v.n0; ++i) v.a.push_back(V::integer(a(i, j)));
      return v;
    }
    case il::Type::MapArrayStringToDynamic: return readMap(d.as<DMapArray>());
    case il::Type::MapStringToDynamic: return readMap(d.as<DMap>());
    default: v.k = V::Other; return v;
  }
}
bool sameForm(const V& a, const V& b) {
  if (a.k != b.k) return false;
  if ((a.k == V::Arr || a.k == V::Dbl) && (a.rep != b.rep || a.n0 != b.n0 || a.n1 != b.n1)) return false;
  if (a.k == V::Tab) {
    for (auto& p : a.t) {
      const V* q = b.find(p.first);
      if (q && !sameForm(p.second, *q)) return false;
    }
  }
  return true;
}

void refuseMemory() {
  if (isProp("C20")) g_alloc.fail_at = g_astats.count + 1 + draw(draw(2) ? 200 : 12);
}
void checkRefused(const char* what, bool died) {
  if (!isProp("C20")) return;
  SIM_CHECK(g_astats.failed == 0 || died, "continued-without-memory", "%s went on although its memory request was refused", what);
  g_alloc.fail_at = 0;
}
Outcome saveSut(const DMapArray& a, bool with_option, const std::vector<std::string>& path) {
  Outcome o;
  refuseMemory();
  End e = guarded([&] {
    il::Status status{};
    const il::String filename = ilString(kName);
    if (with_option) {
      il::Array<il::String> options{};
      for (const std::string& name : path) options.Append(ilText(name));
      il::save(a, options, filename, il::io, status);
    } else
      il::save(a, filename, il::io, status);
    o.ok = status.Ok();
    o.error = o.ok ? -1 : (int)status.error();
  });
  o.died = e == End::Died;
  checkRefused("save", o.died);
  ev("save", o.died ? -1 : (int)o.ok, o.error);
  return o;
}
struct Loaded {
  Outcome o;
  V v;
};
template <typename M>
Loaded loadAs() {
  Loaded l;
  refuseMemory();
  End e = guarded([&] {
    il::Status status{};
    const il::String filename = ilString(kName);
    const M m = il::load<M>(filename, il::io, status);
    l.o.ok = status.Ok();
    l.o.error = l.o.ok ? -1 : (int)status.error();
    if (l.o.ok) { Host h; l.v = readMap(m); }
  });
  l.o.died = e == End::Died;
  checkRefused("load", l.o.died);
  ev("load", l.o.died ? -1 : (int)l.o.ok, l.o.error, l.o.ok ? toml::show(l.v, 2000) : std::string());
  return l;
}
Loaded loadSut(bool unordered) { return unordered ? loadAs<DMap>() : loadAs<DMapArray>(); }

void checkOthers(const std::string& other_bytes) {
  for (auto& f : g_disk.files)
    SIM_CHECK(f.first == kName || f.first == kOther, "stray-file", "the file %s was left", f.first.c_str());
  SIM_CHECK(g_disk.exists(kOther) && g_disk.bytes(kOther) == other_bytes, "other-file-touched", "another file was changed");
}
void checkReleased(const char* what) {
  SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "%s returned with %lu file(s) open", what, (unsigned long)g_disk.nb_open);
  SIM_CHECK(g_astats.live == 0, "memory-leak", "%s lost memory: %s", what, describeLive().c_str());
}
void compare(const Loaded& l, const V& tree, bool ordered, const char* cls) {
  const std::string e = toml::differ(l.v, tree, "", ordered);
  SIM_CHECK(e.empty(), cls, "what was loaded is not what was saved: %s", e.c_str());
  SIM_CHECK(sameForm(l.v, tree), cls, "what was loaded has other types than what was saved: %s instead of %s", toml::show(l.v).c_str(), toml::show(tree).c_str());
}

void run() {
  const bool c7 = isProp("C07"), c20 = isProp("C20");
  const std::string others = "do not touch";
  g_disk.put(kOther, others);
  Stream s = stream();
  int64_t nodes = flip(6) ? 200 : 40;
  V tree = drawMap(s, 0, nodes);
  const bool unsupported = flip(12);
  if (unsupported) {
    V x;
    x.k = V::Other;
    x.i = (int64_t)draw(3);
    V a = V::arr();
    tree.t.emplace_back("unsupported", draw(2) ? x : a);
  }
  const bool with_option = flip(6);
  // the path to the map that is saved as an array of structures
  std::vector<std::string> path;
  if (with_option) {
    std::string leaf = "records";
    if (!tree.find("level0") && flip(3)) {
      V inner = V::tab();
      const uint64_t depth = 1 + draw(3);
      for (uint64_t d = depth; d-- > 0;) {
        V at = V::tab();
        // other entries, some named like a part of the path, which are saved as what they are
        const uint64_t before = draw(3);
        for (uint64_t k = 0; k < before; ++k) {
          int64_t few = 4;
          V x = draw(2) ? drawStruct(s, false) : drawMap(s, 2, few);
          at.t.emplace_back(k == 0 ? (d + 1 < depth ? "records" : "level0") : "x" + std::to_string(k), x);
        }
        if (d + 1 == depth) at.t.emplace_back("records", drawStruct(s));
        else at.t.emplace_back("level" + std::to_string(d + 1), inner);
        inner = at;
      }
      tree.t.emplace_back("level0", inner);
      for (uint64_t d = 0; d < depth; ++d) path.push_back("level" + std::to_string(d));
      probe("nested-records");
    } else if (!tree.find("records"))
      tree.t.emplace_back("records", drawStruct(s));
    path.push_back(leaf);
  }
  const bool must_fail = emptyKey(tree) && draw(1) == 0;
  const int scenario = (int)draw(4);  // 0: the save fails, 1: the load fails, 2: the file is cut, 3: damaged
  bool readonly = false;
  g_disk.clearPlan();
  Outcome o;
  {
    Boxed<DMapArray> b{[&](void* p) { Sut g; DMapArray* m = new (p) DMapArray{}; fill(tree, *m); }};
    int64_t size = 100;
    if (with_option && flip(8)) {  // a name of another kind of file, which has no options
      static const char* names[] = {"/simdisk/x.toml", "/simdisk/x.npy", "/simdisk/x.png", "/simdisk/x.txt", "/simdisk/x"};
      const char* name = names[draw(5)];
      bool ok = true;
      End e = guarded([&] {
        il::Status status{};
        const il::String filename = ilString(name);
        il::Array<il::String> options{};
        options.Append(ilText("records"));
        il::save(*b, options, filename, il::io, status);
        ok = status.Ok();
      });
      if (e != End::Died) b.destroy();
      ev("other-kind", name, (int)ok);
      nontrivial();
      if (c20) return;
      if (c7) { if (e != End::Died) { checkReleased("save"); checkOthers(others); } return; }
      SIM_CHECK(e != End::Died, "save-stopped-process", "saving with options to %s stopped the process (%s)", name, g_death);
      SIM_CHECK(!ok && !g_disk.exists(name), "other-kind-accepted", "saving with options to %s reported success or left a file", name);
      return;
    }
    if (scenario == 0) {
      if (!c20) {
        o = saveSut(*b, with_option, path);
        if (o.died) { SIM_CHECK(c7, "save-stopped-process", "saving stopped the process (%s)", g_death); return; }
        if (o.ok) { size = (int64_t)g_disk.bytes(kName).size(); g_disk.files.erase(kName); }
      }
      if (flip(3)) { DiskFile& f = g_disk.put(kName, std::string((size_t)draw(300), 'x')); readonly = f.readonly = flip(4); }
      ioplan::drawStorage(true, size);
    }
    o = saveSut(*b, with_option, path);
    if (!o.died) b.destroy();
  }
  const bool troubled = g_disk.hard_faults > 0 || readonly;
  const bool lost = g_disk.faults_open || g_disk.faults_write || g_disk.faults_close || readonly;
  ev("model", scenario, toml::show(tree, 600), (int)troubled, (int)with_option);
  nontrivial();
  if (c20 && o.died) return;
  if (c7) {
    if (o.died) return;
    checkReleased("save");
    checkOthers(others);
  } else {
    SIM_CHECK(!o.died, "save-stopped-process", "saving stopped the process (%s) after %lu storage fault(s)", g_death, (unsigned long)g_disk.hard_faults);
    if (!o.ok) {
      SIM_CHECK(troubled || unsupported || must_fail, "spurious-save-error", "saving reported error %d although the storage did not fail", o.error);
    } else {
      SIM_CHECK(!lost, "save-ok-after-failure", "saving reported success although the storage failed (open %lu, write %lu, close %lu)",
                (unsigned long)g_disk.faults_open, (unsigned long)g_disk.faults_write, (unsigned long)g_disk.faults_close);
      SIM_CHECK(g_disk.nb_open == 0, "save-ok-not-closed", "saving reported success with the file still open");
    }
  }
  if (!g_disk.exists(kName)) return;
  g_disk.clearPlan();
  // the file may now be of any length, its content is what the disk kept
  std::string b = g_disk.bytes(kName);
  const bool complete = o.ok && !unsupported;
  bool damaged = !o.ok, cut = false;
  if (scenario == 2 && o.ok && !b.empty()) {
    b.resize((size_t)draw(b.size()));
    cut = true;
    fault("stored-truncation");
  } else if (scenario == 3) {
    damaged = true;
    const uint64_t n = 1 + draw(4);
    for (uint64_t i = 0; i < n; ++i) {
      const size_t at = (size_t)draw(b.size() + 1);
      switch (draw(7)) {
        case 0: if (at < b.size()) b[at] ^= (char)(1 << draw(8)); fault("stored-bit-flip"); break;
        case 1: if (at < b.size()) b[at] = (char)draw(256); fault("stored-byte-changed"); break;
        case 2: b.erase(at, 1 + draw(12)); fault("stored-bytes-lost"); break;
        case 3: { const size_t from = (size_t)draw(b.size() + 1); b.insert(at, b.substr(from, draw(60))); fault("stored-bytes-duplicated"); break; }
        case 4: {  // a length
          static const int64_t x[] = {-1, INT64_MAX, INT64_MIN, 1ll << 32, 1ll << 61, 1ll << 60, 1000000, 0};
          const int64_t v = x[draw(8)];
          if (at + 8 <= b.size()) std::memcpy(&b[at], &v, 8);
          fault("stored-length-changed");
          break;
        }
        case 5: b.insert(at, (size_t)draw(20), (char)(draw(2) ? 0xFF : 0x80)); fault("stored-bytes-inserted"); break;
        default: {
          static const unsigned char types[] = {0, 8, 10, 11, 12, 13, 14, 15, 16, 33, 27, 28, 30, 40, 45, 50, 52, 255};
          if (at < b.size()) b[at] = (char)types[draw(18)];
          fault("stored-type-changed");
        }
      }
    }
    if (flip(30)) {  // maps nested as deep as the file is long
      b.clear();
      const size_t n = draw(2) ? 195 + draw(12) : draw(60000);
      for (size_t i = 0; i < n; ++i) { b += '\1'; b += 'a'; b += (char)il::Type::MapArrayStringToDynamic; b += '\1'; }
      if (draw(2)) b.append(n + 1, '\0');
      fault("stored-deep-nesting");
    }
    if (b == g_disk.bytes(kName)) damaged = !o.ok;
  }
  g_disk.put(kName, b);
  DiskFile& f = *g_disk.files[kName];
  const bool may_only_read = f.readonly = flip(4);
  const uint64_t version = f.version;
  if (scenario == 1 || (damaged && flip(6))) ioplan::drawStorage(false, (int64_t)b.size());
  else { g_disk.bufsize = draw(2) ? 0 : 1 + (int)draw(300); if (flip(3)) g_disk.rate[F_SHORT_READ] = 2; }
  const uint64_t open0 = g_disk.faults_open, read0 = g_disk.faults_read, close0 = g_disk.faults_close, hard0 = g_disk.hard_faults;
  const bool unordered = flip(4);
  if (damaged) g_alloc.max_single = 256 * b.size() + (1u << 17);
  g_astats.largest_request = 0;
  setStepBudget(1000000 + 20000 * (uint64_t)b.size());
  Loaded l = loadSut(unordered);
  const bool read_lost = g_disk.faults_open > open0 || g_disk.faults_read > read0 || g_disk.faults_close > close0;
  ev("load-model", (int)cut, (int)damaged, (int)unordered, (int)read_lost);
  if (c20) return;
  if (c7) {
    if (l.o.died) return;
    checkReleased("load");
    SIM_CHECK(g_disk.exists(kName) && g_disk.files[kName]->version == version && g_disk.bytes(kName) == b, "load-modified-file", "a load modified the file");
    checkOthers(others);
    if (may_only_read && complete && !cut && !damaged && g_disk.hard_faults == hard0)
      {
      if (!l.o.ok) {  // would it be loaded if it could be written?
        g_disk.clearPlan();
        g_disk.files[kName]->readonly = false;
        const Loaded again = loadSut(unordered);
        SIM_CHECK(!again.o.ok, "readonly-load-failed", "loading a file that may only be read failed (error %d)", l.o.error);
      }
    }
    return;
  }
  SIM_CHECK(!damaged || g_astats.largest_request <= 256 * b.size() + (1u << 17), "oversized-allocation",
            "loading a file of %zu bytes requested %lu bytes at once", b.size(), (unsigned long)g_astats.largest_request);
  SIM_CHECK(!l.o.died, "load-stopped-process", "loading a file of %zu bytes stopped the process (%s)", b.size(), g_death);
  if (l.o.ok) {
    SIM_CHECK(!read_lost, "load-ok-after-failure", "loading reported success although the storage failed");
    SIM_CHECK(!cut, "load-ok-cut-file", "a file cut at byte %zu was loaded with success", b.size());
    if (damaged) { probe("damaged-load-ok"); return; }
    if (!complete) return;
    compare(l, tree, !unordered, "loaded-values");
  } else {
    if (damaged) probe("damaged-load-error");
    SIM_CHECK(g_disk.hard_faults > hard0 || cut || damaged || !complete, "spurious-load-error", "loading a saved file from a healthy disk reported error %d", l.o.error);
  }
}
}  // namespace

void world_data() { run(); }
