// Thread activities with files (C21): trees saved to and loaded from .toml and
// .data files, bytes through il::File, a file that all threads only read.
#include "io_all.h"
#include "seq.h"
#include "thr_files.h"

#include <il/io/File.h>

using namespace seq;

typedef il::MapArray<il::String, il::Dynamic> DMapArray;

namespace {
std::string dump(const il::Dynamic& d);
std::string dumpMap(const DMapArray& m) {
  std::string o = "{";
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
    o += std::string(m.key(i).asCString(), (size_t)m.key(i).size()) + "=" + dump(m.value(i)) + ";";
  }
  return o + "}";
}
std::string dump(const il::Dynamic& d) {
  char b[60];
  switch (d.type()) {
    case il::Type::Bool: return d.to<bool>() ? "true" : "false";
    case il::Type::Integer: std::sprintf(b, "%ld", (long)d.to<il::int_t>()); return b;
    case il::Type::Double: std::sprintf(b, "%.17g", d.to<double>()); return b;
    case il::Type::UnicodeString: return "'" + std::string(d.as<il::String>().asCString(), (size_t)d.as<il::String>().size()) + "'";
    case il::Type::ArrayOfDynamic: {
      std::string o = "[";
      const il::Array<il::Dynamic>& a = d.as<il::Array<il::Dynamic>>();
      for (il::int_t i = 0; i < a.size(); ++i) o += dump(a[i]) + ",";
      return o + "]";
    }
    case il::Type::ArrayOfDouble: {
      std::string o = "d[";
      const il::Array<double>& a = d.as<il::Array<double>>();
      for (il::int_t i = 0; i < a.size(); ++i) { std::sprintf(b, "%.17g,", a[i]); o += b; }
      return o + "]";
    }
    case il::Type::Array2DOfDouble: {
      const il::Array2D<double>& a = d.as<il::Array2D<double>>();
      std::sprintf(b, "d%ldx%ld[", (long)a.size(0), (long)a.size(1));
      std::string o = b;
      for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) { std::sprintf(b, "%.17g,", a(i, j)); o += b; }
      return o + "]";
    }
    case il::Type::MapArrayStringToDynamic: return dumpMap(d.as<DMapArray>());
    default: std::sprintf(b, "type%d", (int)d.type()); return b;
  }
}
il::String pathOf(const char* name) { return il::String{il::StringType::Byte, name, (il::int_t)std::strlen(name)}; }
double real(Stream& r) { return (double)((int64_t)r.below(2000001) - 1000000) / 64 * (r.below(4) == 0 ? 1e30 : 1); }
void fillScalars(Stream& r, bool toml, int depth, DMapArray& m) {
  const int n = (int)r.below(6);
  for (int i = 0; i < n; ++i) {
    char k[40];
    std::sprintf(k, i % 2 ? "k%d" : "a key that is stored outside, %d", i);
    const il::String key = pathOf(k);
    switch (r.below(depth < 2 ? 8 : 7)) {
      case 0: m.Set(key, il::Dynamic{r.below(2) == 1}); break;
      case 1: m.Set(key, il::Dynamic{(il::int_t)(r.next() >> r.below(60)) - 1000}); break;
      case 2: m.Set(key, il::Dynamic{real(r)}); break;
      case 3: case 4: m.Set(key, il::Dynamic{El<il::String>::make((int)r.below(200))}); break;
      case 5: {
        il::Array<double> a{};
        for (uint64_t j = 1 + r.below(5); j > 0; --j) a.Append(real(r));
        m.Set(key, il::Dynamic{std::move(a)});
        break;
      }
      case 6:
        if (toml) {
          il::Array<il::Dynamic> a{};
          for (uint64_t j = r.below(5); j > 0; --j) a.Append(il::Dynamic{El<il::String>::make((int)r.below(200))});
          m.Set(key, il::Dynamic{std::move(a)});
        } else {
          il::Array2D<double> a{(il::int_t)r.below(4), (il::int_t)r.below(4)};
          for (il::int_t q = 0; q < a.size(1); ++q) for (il::int_t p = 0; p < a.size(0); ++p) a(p, q) = real(r);
          m.Set(key, il::Dynamic{std::move(a)});
        }
        break;
      default: {
        DMapArray sub{};
        fillScalars(r, toml, depth + 1, sub);
        m.Set(key, il::Dynamic{std::move(sub)});
      }
    }
  }
}

// saves `given`, or a tree of its own, and loads it again
bool tree(int thread, bool toml, const DMapArray* given) {
  char name[40];
  std::sprintf(name, "/simdisk/thread%d.%s", thread, toml ? "toml" : "data");
  Stream r{pick(1 << 20)};
  bool saved = false, loaded = false;
  int error = 0;
  std::string before, after;
  if (!sut("saving and loading a tree", [&] {
        DMapArray own{};
        if (!given) fillScalars(r, toml, 0, own);
        const DMapArray& m = given ? *given : own;
        { Host h; before = dumpMap(m); }
        const il::String path = pathOf(name);
        il::Status st{};
        il::save(m, path, il::io, st);
        saved = st.Ok();
        if (!saved) { error = (int)st.error(); return; }
        const DMapArray back = il::load<DMapArray>(path, il::io, st);
        loaded = st.Ok();
        if (!loaded) { error = (int)st.error(); return; }
        Host h;
        after = dumpMap(back);
      })) return false;
evt("tree", toml, saved, loaded, error, before, after);
  if (g_disk.exists(name)) { Host h; evt("file", g_disk.bytes(name)); }
  return true;
}
bool sharedFile(bool toml) {
  bool loaded = false;
  int error = 0;
  std::string after;
  if (!sut("loading a shared file", [&] {
        const il::String path = pathOf(toml ? "/simdisk/shared.toml" : "/simdisk/shared.data");
        il::Status st{};
        const DMapArray back = il::load<DMapArray>(path, il::io, st);
        loaded = st.Ok();
        if (!loaded) { error = (int)st.error(); return; }
        Host h;
        after = dumpMap(back);
      })) return false;
  SIM_CHECK(loaded, "interference", "loading a shared file from a healthy disk failed (error %d)", error);
  evt("shared file", after);
  return true;
}
bool raw(int thread) {
  char name[40];
  std::sprintf(name, "/simdisk/thread%d.bin", thread);
  Stream r{pick(1 << 20)};
  unsigned char out[300], in[300];
  const il::int_t n = 1 + (il::int_t)pick(300), buffer = (il::int_t)pick(3) * 17, piece = 1 + (il::int_t)pick(40);
  for (auto& c : out) c = (unsigned char)r.next();
  std::memset(in, 0, sizeof in);
  bool good = true;
  if (!sut("writing and reading through a File", [&] {
        const il::String path = pathOf(name);
        il::Status st{};
        {
          il::File f{path, il::FileMode::Write, buffer, il::io, st};
          if (!st.Ok()) { good = false; return; }
          for (il::int_t i = 0; i < n && good; i += piece) { f.Write(out + i, i + piece < n ? piece : n - i, 1, il::io, st); good = st.Ok(); }
          il::Status sc{};
          f.Close(il::io, sc);
          good = sc.Ok() && good;
        }
        if (!good) return;
        il::File f{path, il::FileMode::Read, buffer, il::io, st};
        if (!st.Ok()) { good = false; return; }
        for (il::int_t i = 0; i < n && good; i += piece) { f.Read(i + piece < n ? piece : n - i, 1, il::io, in + i, st); good = st.Ok(); }
        il::Status sc{};
        f.Close(il::io, sc);
        good = sc.Ok() && good;
      })) return false;
  SIM_CHECK(good, "interference", "writing and reading a private file failed on a healthy disk");
  SIM_CHECK(std::memcmp(in, out, (size_t)n) == 0, "interference", "a private file holds other bytes than those written");
  { Host h; evt("raw", g_disk.bytes(name)); }
  return true;
}
}  // namespace

void threadTrees(int thread, const DMapArray& shared) {
  const int n = 1 + (int)pick(3);
  for (int i = 0; i < n; ++i) {
    bool ok;
    switch (pick(8)) {
      case 0: case 1: ok = tree(thread, true, nullptr); break;
      case 2: case 3: ok = tree(thread, false, nullptr); break;
      case 4: ok = tree(thread, true, &shared); break;
      case 5: ok = sharedFile(true); break;
      case 6: ok = sharedFile(false); break;
      default: ok = raw(thread); break;
    }
    if (!ok) return;
  }
}
void threadSharedFiles(const DMapArray& shared) {
  must("harness", [&] {
    il::Status st{};
    il::save(shared, pathOf("/simdisk/shared.toml"), il::io, st);
    st.AbortOnError();
    Stream r{7};
    DMapArray m{};
    while (m.nbElements() < 3) { m = DMapArray{}; fillScalars(r, false, 0, m); }
    il::save(m, pathOf("/simdisk/shared.data"), il::io, st);
    st.AbortOnError();
  });
  g_disk.files["/simdisk/shared.toml"]->readonly = true;
  g_disk.files["/simdisk/shared.data"]->readonly = true;
}
