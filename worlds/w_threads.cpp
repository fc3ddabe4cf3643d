// Threads using distinct objects, or only reading shared ones (C21).  Every
// thread runs the body of another world on its own objects with choices of its
// own; its history must be the one it has when the threads run one by one.
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/container/string/algorithmString.h>
#include <il/io/numpy/numpy.h>

#include "npy_ref.h"
#include "thr_files.h"
#include "seq.h"

using namespace seq;

void world_array();
void world_small();
void world_static();
void world_nd();
void world_map();
void world_maparray();
void world_string();
void world_dynamic();
void world_info();
void world_deque();
void world_status();
void world_tri();

namespace {
thread_local int t_thread = 0;

// ---------------------------------------------------------------- shared, constant
struct Shared {
  il::Map<il::String, int> map;
  il::MapArray<il::String, il::String> ordered;
  il::Array<il::String> texts;
  il::Array2D<double> matrix;
  il::Dynamic tree;
  il::Info info;
  il::String text;
  il::Map<int, il::String> by_number;
};
const int kShared = 24;
const Shared* g_shared = nullptr;

void buildShared(Shared& s, Stream& r) {
  for (int i = 0; i < kShared; ++i) {
    const il::String x = El<il::String>::make(i);
    s.map.Set(x, 7 * i);
    s.ordered.Set(x, El<il::String>::make(i + 50));
    s.texts.Append(x);
    s.by_number.Set(i * 1000, x);
    char name[16];
    std::sprintf(name, "name%d", i);
    if (i % 3 == 0) s.info.Set(name, (il::int_t)(i * 11));
    else if (i % 3 == 1) s.info.Set(name, i * 0.5);
    else s.info.Set(name, x.asCString());
  }
  for (int i = 0; i < 4; ++i) { const il::spot_t p = s.map.search(s.texts[5 * i]); s.map.erase(p); }
  s.matrix.Resize(5, 7);
  for (il::int_t j = 0; j < 7; ++j)
    for (il::int_t i = 0; i < 5; ++i) s.matrix(i, j) = (double)(r.next() % 1000) / 8;
  il::MapArray<il::String, il::Dynamic> m{};
  m.Set(il::String{"a"}, il::Dynamic{(il::int_t)12});
  m.Set(il::String{"b"}, il::Dynamic{2.5});
  m.Set(il::String{"a long name, stored outside"}, il::Dynamic{il::String{"a long text that does not fit inside"}});
  il::Array<il::Dynamic> list{};
  for (int i = 0; i < 6; ++i) list.Append(il::Dynamic{(il::int_t)(i * i)});
  m.Set(il::String{"list"}, il::Dynamic{list});
  s.tree = il::Dynamic{m};
  for (int i = 0; i < 3; ++i) s.text.Append(s.texts[20 + i]);
}

bool readShared() {
  const Shared& s = *g_shared;
  const int i = (int)pick(kShared);
  long a = 0, b = 0;
  double d = 0;
  bool ok = true;
  char buf[80];
  buf[0] = 0;
  int op = (int)pick(12);
  switch (op) {
    case 0: case 1:
      if (!sut("search in a shared map", [&] {
            const il::String k = El<il::String>::make(i);
            const il::spot_t p = s.map.search(k);
            a = s.map.found(p);
            if (a) b = s.map.value(p);
          })) return false;
      SIM_CHECK(a == (i % 5 != 0 || i >= 20), "interference", "a key of a shared map is %s", a ? "found but absent" : "not found");
      SIM_CHECK(!a || b == 7 * i, "interference", "the value of a key of a shared map is %ld", b);
      break;
    case 2:
      if (!sut("iteration of a shared map", [&] {
            for (il::spot_t p = s.map.spotBegin(); p != s.map.spotEnd(); p = s.map.next(p)) { ++a; b += s.map.value(p); }
          })) return false;
      SIM_CHECK(a == kShared - 4, "interference", "the iteration of a shared map visits %ld keys", a);
      break;
    case 3:
      if (!sut("copy of a shared map", [&] {
            il::Map<il::String, int> m{s.map};
            m.Set(il::String{"new"}, 3);
            a = m.nbElements();
            m.erase(m.search(s.texts[21]));
            b = m.found(m.search(s.texts[i]));
          })) return false;
      SIM_CHECK(a == kShared - 3, "interference", "a copy of a shared map has %ld keys", a);
      break;
    case 4:
      if (!sut("search in a shared ordered map", [&] {
            const il::spot_t p = s.ordered.search(s.texts[i]);
            ok = s.ordered.found(p) && El<il::String>::get(s.ordered.value(p)) == i + 50 && s.ordered.key(p) == s.texts[i];
            const il::MapArray<il::String, il::String> m{s.ordered};
            a = m.nbElements();
          })) return false;
      break;
    case 5:
      if (!sut("copy of a shared array", [&] {
            il::Array<il::String> t{s.texts};
            t.Append(s.texts[i]);
            t.Append(il::emplace, s.texts[0]);
            for (il::int_t k = 0; k < t.size(); ++k) a += El<il::String>::get(t[k]);
          })) return false;
      SIM_CHECK(a == kShared * (kShared - 1) / 2 + i, "interference", "a copy of a shared array holds other elements");
      break;
    case 6:
      if (!sut("reading a shared dynamic value", [&] {
            const il::MapArray<il::String, il::Dynamic>& m = s.tree.as<il::MapArray<il::String, il::Dynamic>>();
            il::Dynamic copy = s.tree;
            copy.As<il::MapArray<il::String, il::Dynamic>>().Value(copy.as<il::MapArray<il::String, il::Dynamic>>().search(il::String{"b"})) = il::Dynamic{(il::int_t)i};
            const il::Array<il::Dynamic>& l = m.value(m.search(il::String{"list"})).as<il::Array<il::Dynamic>>();
            for (il::int_t k = 0; k < l.size(); ++k) a += l[k].to<il::int_t>();
            d = m.value(m.search(il::String{"b"})).to<double>();
            b = copy.as<il::MapArray<il::String, il::Dynamic>>().value(copy.as<il::MapArray<il::String, il::Dynamic>>().search(il::String{"b"})).to<il::int_t>();
          })) return false;
      SIM_CHECK(a == 55 && d == 2.5 && b == i, "interference", "reading a shared dynamic value gives %ld %g %ld", a, d, b);
      break;
    case 7:
      std::sprintf(buf, "name%d", i);
      if (!sut("reading a shared record", [&] {
            const il::int_t p = s.info.search(buf);
            ok = s.info.found(p);
            if (i % 3 == 0) a = s.info.toInteger(p);
            else if (i % 3 == 1) d = s.info.toDouble(p);
            else ok = std::strcmp(s.info.asCString(buf), s.texts[i].asCString()) == 0;
            const il::Info copy{s.info};
            ok = ok && copy.search(buf) == p;
          })) return false;
      SIM_CHECK(i % 3 || a == i * 11, "interference", "an integer of a shared record reads %ld", a);
      SIM_CHECK(i % 3 != 1 || d == i * 0.5, "interference", "a double of a shared record reads %g", d);
      break;
    case 8:
      if (!sut("comparing and joining shared strings", [&] {
            const il::String j = il::join(s.texts[i], s.text);
            a = j.size();
            ok = j.substring(0, s.texts[i].size()) == s.texts[i] && !(s.texts[i] == s.text) && s.text == s.text;
            b = il::search(s.texts[21], s.text);
            il::String t = s.text;
            t.Append(s.texts[i]);
            t.Append(0x20AC);
            ok = ok && t.size() == s.text.size() + s.texts[i].size() + 3;
          })) return false;
      break;
    case 9:
      if (!sut("formatting", [&] {
            const il::String t = il::toString((il::int_t)(i * 123457 - 1000000) * 10007);
            a = t.size();
            std::memcpy(buf, t.asCString(), (size_t)a + 1);
          })) return false;
      {
        char want[40];
        std::sprintf(want, "%ld", (long)(i * 123457 - 1000000) * 10007);
        SIM_CHECK(std::strcmp(buf, want) == 0, "interference", "toString gives %s instead of %s", buf, want);
      }
      break;
    case 10:
      if (!sut("copy of a shared matrix", [&] {
            il::Array2D<double> m{s.matrix};
            m.Resize(6, 9, 1.0);
            ok = m(i % 5, i % 7) == s.matrix(i % 5, i % 7) && m(5, 8) == 1.0;
            d = s.matrix(i % 5, i % 7);
          })) return false;
      break;
    default:
      if (!sut("search in a shared map of integers", [&] {
            const il::spot_t p = s.by_number.search(i * 1000);
            ok = s.by_number.found(p) && s.by_number.value(p) == s.texts[i] && !s.by_number.found(s.by_number.search(i * 1000 + 1));
            if (s.by_number.found(p)) a = El<il::String>::get(s.by_number.valueForKey(i * 1000));
          })) return false;
      break;
  }
  SIM_CHECK(ok, "interference", "reading shared objects gives something else (operation %d, %d)", op, i);
  evt("shared", op, i, a, b, d, (const char*)buf);
  return true;
}
void bodyShared() {
  const int n = 4 + (int)pick(16);
  for (int i = 0; i < n; ++i) if (!readShared()) return;
}

// ---------------------------------------------------------------- files
template <typename A> struct Fill;
template <typename T> struct Fill<il::Array<T>> {
  static il::Array<T> make(Stream& r) { il::Array<T> a{(il::int_t)r.below(60)}; for (il::int_t i = 0; i < a.size(); ++i) a[i] = (T)(r.next() % 100000); return a; }
  static bool same(const il::Array<T>& a, const il::Array<T>& b) {
    if (a.size() != b.size()) return false;
    for (il::int_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
    return true;
  }
};
template <typename T> struct Fill<il::Array2D<T>> {
  static il::Array2D<T> make(Stream& r) {
    il::Array2D<T> a{(il::int_t)r.below(9), (il::int_t)r.below(9)};
    for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) a(i, j) = (T)(r.next() % 100000);
    return a;
  }
  static bool same(const il::Array2D<T>& a, const il::Array2D<T>& b) {
    if (a.size(0) != b.size(0) || a.size(1) != b.size(1)) return false;
    for (il::int_t j = 0; j < a.size(1); ++j) for (il::int_t i = 0; i < a.size(0); ++i) if (a(i, j) != b(i, j)) return false;
    return true;
  }
};
template <typename A>
bool saveLoad(const char* name) {
  Stream r{pick(1 << 20)};
  bool saved = false, loaded = false, same = false;
  int error = 0;
  if (!sut("saving and loading", [&] {
        const A a = Fill<A>::make(r);
        il::Status st{};
        const il::String path{il::StringType::Byte, name, (il::int_t)std::strlen(name)};
        il::save(a, path, il::io, st);
        saved = st.Ok();
        if (!saved) { error = (int)st.error(); return; }
        const A b = il::load<A>(path, il::io, st);
        loaded = st.Ok();
        if (!loaded) { error = (int)st.error(); return; }
        same = Fill<A>::same(a, b);
      })) return false;
  SIM_CHECK(saved, "interference", "saving a private file on a healthy disk failed (error %d)", error);
  SIM_CHECK(loaded, "interference", "loading a private file from a healthy disk failed (error %d)", error);
  SIM_CHECK(same, "interference", "a private file holds something else than what was saved");
  { Host h; evt("file", g_disk.bytes(name)); }
  return true;
}
void bodyFiles() {
  char name[40];
  std::sprintf(name, "/simdisk/thread%d.npy", t_thread);
  const int n = 1 + (int)pick(4);
  for (int i = 0; i < n; ++i) {
    bool ok;
    switch (pick(5)) {
      case 0: ok = saveLoad<il::Array<int>>(name); break;
      case 1: ok = saveLoad<il::Array<double>>(name); break;
      case 2: ok = saveLoad<il::Array2D<int>>(name); break;
      case 3: ok = saveLoad<il::Array2D<double>>(name); break;
      default: {  // a file that is not there
        bool good = true;
        ok = sut("loading a missing file", [&] {
          il::Status st{};
          const il::Array<int> a = il::load<il::Array<int>>(il::String{"/simdisk/missing.npy"}, il::io, st);
          good = st.Ok();
        });
        if (!ok) return;
        SIM_CHECK(!good, "interference", "a missing file was loaded");
      }
    }
    if (!ok) return;
  }
}

void bodyTrees() { threadTrees(t_thread, g_shared->tree.as<il::MapArray<il::String, il::Dynamic>>()); }

void (*const kBodies[])() = {world_array, world_string, bodyShared, bodyFiles, world_map, world_dynamic, world_small, world_nd,
                             world_maparray, world_info, world_deque, world_status, world_tri, bodyShared, bodyTrees, world_static, bodyTrees, bodyFiles};
const int kNbBodies = (int)(sizeof kBodies / sizeof *kBodies);
}  // namespace

void world_threads() {
  g_alloc.pages = draw(3) == 2;
  static const int sizes[] = {0, -1, 5, 64, 4096};
  g_disk.bufsize = sizes[draw(5)];
  Stream s0 = stream();
  Shared* shared = static_cast<Shared*>(rawAlloc(sizeof(Shared)));
  if (guarded([&] { new (shared) Shared{}; buildShared(*shared, s0); }) == End::Died) violate("process-stop", "building the shared objects stopped the process");
  g_shared = shared;
  const int n = 2 + (int)draw(3);
  static const unsigned wanted[] = {40, 10, 160, 4, 600};  // switches, about
  const unsigned switches = wanted[draw(thorough() ? 5 : 4)];
  const bool alike = draw(2) == 0;
  std::vector<int> body;
  std::vector<uint64_t> seed, serial((size_t)n, 1), joint((size_t)n, 1);
  for (int i = 0; i < n; ++i) {
    body.push_back(alike && i ? body[0] : (int)draw((uint64_t)kNbBodies));
    seed.push_back(draw(1u << 20));
  }
  // The stream of each thread decides everything it does.
  auto go = [&](int i, uint64_t* hash) {
    Stream st{seed[(size_t)i]};
    t_ctx = Ctx{};
    t_ctx.stream = &st;
    t_ctx.hash = hash;
    t_thread = i;
    kBodies[body[(size_t)i]]();
    t_ctx = Ctx{};
  };
  bool files = false;  // is there a thread that loads the shared files?
  auto disk = [&] {
    g_disk.files.clear();
    for (int i = 0; i < n; ++i)
      if (kBodies[body[(size_t)i]] == bodyTrees) files = true;
    if (files) threadSharedFiles(shared->tree.as<il::MapArray<il::String, il::Dynamic>>());
  };
  disk();
  const uint64_t before = steps(), calls = g_astats.count;
  for (int i = 0; i < n; ++i) go(i, &serial[(size_t)i]);
  disk();
  std::vector<std::function<void()>> bodies;
  for (int i = 0; i < n; ++i) bodies.push_back([&, i] { go(i, &joint[(size_t)i]); });
  runThreads(bodies, 1 + (unsigned)((steps() - before) / switches), 1 + (unsigned)((g_astats.count - calls) / switches));
  for (int i = 0; i < n; ++i) {
    SIM_CHECK(serial[(size_t)i] == joint[(size_t)i], "interference", "thread %d of %d (activity %d) had another history than when the threads ran one by one", i, n, body[(size_t)i]);
    ev("thread", i, body[(size_t)i], joint[(size_t)i]);
  }
  ev("switches", g_switches);
  if (g_switches > 2) nontrivial();
  g_shared = nullptr;
}
