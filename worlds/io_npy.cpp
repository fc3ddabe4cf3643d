// .npy world: C01 (save), C02 (load), C03 (damaged files), C07 (handles, leaks).

#include "io_all.h"
#include "common.h"
#include <il/SparseMatrixCSR.h>
#include <cstring>
#include "npy_ref.h"

using namespace sim;

namespace {

const char* kName = "/simdisk/x.npy";

template <typename T> struct Desc;
template <> struct Desc<int> { static const char* descr() { return "<i4"; } };
template <> struct Desc<double> { static const char* descr() { return "<f8"; } };
template <> struct Desc<long> { static const char* descr() { return "<i8"; } };
template <> struct Desc<float> { static const char* descr() { return "<f4"; } };
template <> struct Desc<unsigned char> { static const char* descr() { return "|u1"; } };

// Model of an array: shape and raw bytes in Fortran order.
struct Model {
  std::vector<int64_t> shape;
  std::string descr;
  std::string bytes;
};

template <typename T>
T element(Stream& s) {
  uint64_t r = s.next();
  T x;
  if (sizeof(T) == 8) {
    switch (r % 6) {
      case 0: { double d = (double)(int64_t)(s.next() % 2000) - 1000; std::memcpy(&x, &d, sizeof x); return x; }
      case 1: { uint64_t b = 0; std::memcpy(&x, &b, sizeof x); return x; }
      case 2: { uint64_t b = 0x7ff8000000000000ull | (s.next() & 0xffff); std::memcpy(&x, &b, sizeof x); return x; }
      case 3: { uint64_t b = 0x0a0a0a0a0a0a0a0aull; std::memcpy(&x, &b, sizeof x); return x; }
      default: { uint64_t b = s.next(); std::memcpy(&x, &b, sizeof x); return x; }
    }
  }
  if (sizeof(T) == 1) { unsigned char b = (unsigned char)(r >> 32); std::memcpy(&x, &b, 1); return x; }
  uint32_t b = (r & 7) == 0 ? 0 : (r & 7) == 1 ? 0x0a0a0a0au : (uint32_t)(r >> 32);
  std::memcpy(&x, &b, sizeof x < sizeof b ? sizeof x : sizeof b);
  return x;
}

int64_t drawDim() {
  switch (draw(5)) {
    case 0: return 1 + (int64_t)draw(3);
    case 1: return 0;
    case 2: return (int64_t)draw(12);
    case 3: return (int64_t)draw(60);
    default: return (int64_t)draw(thorough() ? 1200 : 300);
  }
}

template <typename T>
il::Array<T>* makeArray(void* p, Model& m, bool big_capacity) {
  Stream s = stream();
  const int64_t n = flip(60) ? (int64_t)draw(20000) : drawDim();
  m.shape = {n};
  m.descr = Desc<T>::descr();
  m.bytes.resize((size_t)n * sizeof(T));
  il::Array<T>* v;
  { Sut g; v = new (p) il::Array<T>{}; if (big_capacity) v->Reserve(n + 1 + (il::int_t)(s.next() % 9)); v->Resize(n); }
  for (int64_t i = 0; i < n; ++i) {
    T x = element<T>(s);
    (*v)[i] = x;
    std::memcpy(&m.bytes[(size_t)i * sizeof(T)], &x, sizeof(T));
  }
  return v;
}
template <typename T>
il::Array2D<T>* makeArray2D(void* p, Model& m, bool big_capacity) {
  Stream s = stream();
  int64_t n0 = drawDim(), n1 = drawDim();
  if (n0 * n1 > 4000) n1 = 4000 / n0;
  m.shape = {n0, n1};
  m.descr = Desc<T>::descr();
  m.bytes.resize((size_t)(n0 * n1) * sizeof(T));
  il::Array2D<T>* v;
  {
    Sut g;
    v = new (p) il::Array2D<T>{};
    if (big_capacity) v->Reserve(n0 + 1 + (il::int_t)(s.next() % 5), n1 + (il::int_t)(s.next() % 5));
    v->Resize(n0, n1);
  }
  for (int64_t j = 0; j < n1; ++j)
    for (int64_t i = 0; i < n0; ++i) {
      T x = element<T>(s);
      (*v)(i, j) = x;
      std::memcpy(&m.bytes[(size_t)(j * n0 + i) * sizeof(T)], &x, sizeof(T));
    }
  return v;
}

// C20: one request of the operation is refused; it must not go on.
void refuseMemory() {
  if (isProp("C20")) g_alloc.fail_at = g_astats.count + 1 + draw(draw(2) ? 40 : 8);
}
void checkRefused(const char* what, bool died) {
  if (!isProp("C20")) return;
  SIM_CHECK(g_astats.failed == 0 || died, "continued-without-memory", "%s went on although its memory request was refused", what);
  g_alloc.fail_at = 0;
}

template <typename A>
Outcome saveSut(const A& a, const std::string& name) {
  Outcome o;
  refuseMemory();
  End e = guarded([&] {
    il::Status status{};
    const il::String filename = ilString(name);
    il::save(a, filename, il::io, status);
    o.ok = status.Ok();
    o.error = o.ok ? -1 : (int)status.error();
  });
  o.died = e == End::Died;
  checkRefused("save", o.died);
  ev("save", o.died ? -1 : (int)o.ok, o.error);
  return o;
}

// What a load returned, copied out.
struct Loaded {
  Outcome o;
  std::vector<int64_t> shape;
  std::string bytes;
};
template <typename T>
void copyOut(const il::Array<T>& v, Loaded& l) {
  l.shape = {v.size()};
  l.bytes.resize((size_t)v.size() * sizeof(T));
  for (il::int_t i = 0; i < v.size(); ++i) { T x = v[i]; std::memcpy(&l.bytes[(size_t)i * sizeof(T)], &x, sizeof(T)); }
}
template <typename T>
void copyOut(const il::Array2D<T>& v, Loaded& l) {
  l.shape = {v.size(0), v.size(1)};
  l.bytes.resize((size_t)(v.size(0) * v.size(1)) * sizeof(T));
  for (il::int_t j = 0; j < v.size(1); ++j)
    for (il::int_t i = 0; i < v.size(0); ++i) {
      T x = v(i, j);
      std::memcpy(&l.bytes[(size_t)(j * v.size(0) + i) * sizeof(T)], &x, sizeof(T));
    }
}
void copyOut(const il::Array<il::String>& v, Loaded& l) { l.shape = {v.size()}; }
template <typename A>
Loaded loadSut(const std::string& name, bool std_string) {
  Loaded l;
  refuseMemory();
  End e = guarded([&] {
    il::Status status{};
    if (std_string) {
      A a = il::load<A>(std::string(name), il::io, status);
      l.o.ok = status.Ok();
      l.o.error = l.o.ok ? -1 : (int)status.error();
      if (l.o.ok) { Host h; copyOut(a, l); }
    } else {
      const il::String filename = ilString(name);
      A a = il::load<A>(filename, il::io, status);
      l.o.ok = status.Ok();
      l.o.error = l.o.ok ? -1 : (int)status.error();
      if (l.o.ok) { Host h; copyOut(a, l); }
    }
  });
  l.o.died = e == End::Died;
  checkRefused("load", l.o.died);
  ev("load", l.o.died ? -1 : (int)l.o.ok, l.o.error, l.bytes);
  return l;
}
// 0..3 Array of int, double, long, float; 4..7 Array2D of the same;
// 8, 9 Array and Array2D of a type the library has no NumPy name for today;
// 10 Array of strings, which a .npy file cannot hold.
const int kKinds = 11, kPlain = 8;
Loaded loadKind(int request, const std::string& name, bool std_string) {
  switch (request) {
    case 0: return loadSut<il::Array<int>>(name, std_string);
    case 1: return loadSut<il::Array<double>>(name, std_string);
    case 2: return loadSut<il::Array<long>>(name, std_string);
    case 3: return loadSut<il::Array<float>>(name, std_string);
    case 4: return loadSut<il::Array2D<int>>(name, std_string);
    case 5: return loadSut<il::Array2D<double>>(name, std_string);
    case 6: return loadSut<il::Array2D<long>>(name, std_string);
    case 7: return loadSut<il::Array2D<float>>(name, std_string);
    case 8: return loadSut<il::Array<unsigned char>>(name, std_string);
    case 9: return loadSut<il::Array2D<unsigned char>>(name, std_string);
    default: return loadSut<il::Array<il::String>>(name, std_string);
  }
}
const char* kindDescr(int r) {
  static const char* d[] = {"<i4", "<f8", "<i8", "<f4", "|u1"};
  return r >= 10 ? "?" : r >= 8 ? d[4] : d[r % 4];
}
size_t kindRank(int r) { return r == 9 || (r >= 4 && r < 8) ? 2u : 1u; }
size_t kindSize(int r) { return npy::itemsize(kindDescr(r)); }
int drawKind() { return flip(12) ? (int)draw(kKinds) : (int)draw(kPlain); }
bool sameType(const std::string& a, const std::string& b) {  // the order of single bytes says nothing
  return a == b || (a.size() == 3 && b.size() == 3 && a.substr(1) == b.substr(1) && a[2] == '1' && a[0] != '>' && b[0] != '>');
}

void checkOnlyTarget(const std::string& other_bytes) {
  for (auto& f : g_disk.files)
    SIM_CHECK(f.first == kName || f.first.compare(0, std::strlen(kName) + 1, std::string(kName) + ".") == 0 || f.first == "/simdisk/other", "stray-file", "a save left the file %s", f.first.c_str());
  SIM_CHECK(g_disk.exists("/simdisk/other") && g_disk.bytes("/simdisk/other") == other_bytes, "other-file-touched",
            "another file was changed");
}
void checkReleased(const char* what) {
  SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "%s returned with %lu file(s) open", what, (unsigned long)g_disk.nb_open);
  SIM_CHECK(g_astats.live == 0, "memory-leak", "%s lost memory: %s", what, describeLive().c_str());
}

// ------------------------------------------------------------------ save
Outcome saveKind(int kind, Model& m, bool cap, int64_t crash_at, bool faults, bool died_is_violation) {
  Outcome o;
  auto go = [&](int64_t size) {
    if (faults) ioplan::drawStorage(true, size);
    else g_disk.clearPlan();
    if (crash_at >= 0) g_disk.crash_after = (int64_t)draw((uint64_t)size + 1);
  };
  unused(died_is_violation);
  switch (kind) {
    case 0: { Boxed<il::Array<int>> b{[&](void* p) { makeArray<int>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 1: { Boxed<il::Array<double>> b{[&](void* p) { makeArray<double>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 2: { Boxed<il::Array<long>> b{[&](void* p) { makeArray<long>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 3: { Boxed<il::Array<float>> b{[&](void* p) { makeArray<float>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 4: { Boxed<il::Array2D<int>> b{[&](void* p) { makeArray2D<int>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 5: { Boxed<il::Array2D<double>> b{[&](void* p) { makeArray2D<double>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 6: { Boxed<il::Array2D<long>> b{[&](void* p) { makeArray2D<long>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 7: { Boxed<il::Array2D<float>> b{[&](void* p) { makeArray2D<float>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 8: { Boxed<il::Array<unsigned char>> b{[&](void* p) { makeArray<unsigned char>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    case 9: { Boxed<il::Array2D<unsigned char>> b{[&](void* p) { makeArray2D<unsigned char>(p, m, cap); }}; go(128 + (int64_t)m.bytes.size()); o = saveSut(*b, kName); b.destroy(); break; }
    default: {
      Boxed<il::Array<il::String>> b{[&](void* p) { Sut g; auto* v = new (p) il::Array<il::String>{}; const il::int_t n = 1 + (il::int_t)(m.shape.size() % 3); for (il::int_t i = 0; i < n; ++i) v->Append(il::String{"some text, longer than what fits in place"}); }};
      go(256);
      o = saveSut(*b, kName);
      b.destroy();
      break;
    }
  }
  return o;
}

void runSave() {
  const int kind = drawKind();
  const bool cap = flip(3);
  const std::string other = "do not touch";
  g_disk.put("/simdisk/other", other);
  bool readonly = false;
  if (flip(3)) {
    Stream s = stream();
    std::string old((size_t)draw(400), 'z');
    for (auto& c : old) c = (char)s.next();
    DiskFile& f = g_disk.put(kName, old);
    readonly = f.readonly = flip(4);
  }
  Model m;
  Outcome o = saveKind(kind, m, cap, -1, true, true);
  const bool troubled = g_disk.hard_faults > 0 || readonly;
  const uint64_t faults = g_disk.hard_faults;
  ev("model", kind, m.shape.size() > 0 ? m.shape[0] : -1, m.shape.size() > 1 ? m.shape[1] : -1, (int)cap, (int)troubled);
  nontrivial();
  if (isProp("C07")) {
    if (o.died) return;
    checkReleased("save");
    checkOnlyTarget(other);
    return;
  }
  SIM_CHECK(!o.died, "save-stopped-process", "saving stopped the process (%s) after %lu storage fault(s)", g_death, (unsigned long)faults);
  if (faults && o.ok) probe("save-ok-despite-fault");
  if (!o.ok && m.bytes.size() > 0 && g_disk.bytes_written > 128) probe("save-failed-in-payload");
  if (!o.ok && g_disk.bytes_written > 0 && g_disk.bytes_written <= 128) probe("save-failed-in-header");
  if (!o.ok) {
    SIM_CHECK(troubled || kind >= kPlain, "spurious-save-error", "saving reported error %d although the storage did not fail", o.error);
    return;
  }
  SIM_CHECK(!(g_disk.faults_open || g_disk.faults_write || g_disk.faults_close) && !readonly, "save-ok-after-failure",
            "saving reported success although the storage failed (open %lu, write %lu, close %lu)",
            (unsigned long)g_disk.faults_open, (unsigned long)g_disk.faults_write, (unsigned long)g_disk.faults_close);
  SIM_CHECK(g_disk.nb_open == 0, "save-ok-not-closed", "saving reported success with the file still open");
  SIM_CHECK(g_disk.exists(kName), "save-ok-no-file", "saving reported success and there is no file");
  npy::Parsed p = npy::parse(g_disk.bytes(kName));
  SIM_CHECK(p.valid, "saved-file-invalid", "saving reported success, the file is not a valid .npy file: %s", p.why.c_str());
  SIM_CHECK(kind != 10, "saved-objects", "saving an array of strings as .npy reported success");
  SIM_CHECK(sameType(p.descr, m.descr), "saved-type", "the file has element type %s instead of %s", p.descr.c_str(), m.descr.c_str());
  SIM_CHECK(p.shape == m.shape, "saved-shape", "the file has shape %s instead of %s", npy::show(p.shape).c_str(), npy::show(m.shape).c_str());
  std::string pay = p.fortran || m.shape.size() < 2 ? p.payload : npy::transpose(p.payload, m.shape, (int)kindSize(kind));
  SIM_CHECK(pay.size() == m.bytes.size(), "saved-length", "the file holds %zu bytes of elements instead of %zu", pay.size(), m.bytes.size());
  SIM_CHECK(pay == m.bytes, "saved-elements", "the file holds other elements");
}

// ------------------------------------------------------------------ load
void runLoad() {
  // where the file comes from
  Model m;
  bool fortran = true;
  bool complete = true;
  const std::string other = "do not touch";
  const int source = (int)draw(4);
  int kind = (int)draw(kPlain);
  if (source <= 1) {  // saved by the library, on a healthy disk / interrupted by a crash
    const bool crash = source == 1;
    Outcome o = saveKind(kind, m, flip(4), crash ? 1 : -1, false, false);
    if (o.died) return;
    if (!crash && !o.ok) return;  // C01's business
    const bool crashed = g_disk.crashed;
    g_disk.clearPlan();
    g_disk.crashed = false;
    if (crashed) {
      if (!g_disk.exists(kName)) g_disk.put(kName, "");
      npy::Parsed p = npy::parse(g_disk.bytes(kName));
      complete = p.valid && p.shape == m.shape && p.descr == m.descr && p.payload == m.bytes;
      probe(complete ? "crash-after-complete" : "torn-file");
    }
  } else {  // written by an independent writer
    Stream s = stream();
    static const char* descrs[] = {"<i4", "<f8", "<i8", "<f4", "|b1", ">f8", ">i4", "<c16", "<u4", "<i2", "|i1", "|S4", "<U3", "|u1", "<", "|", "<u8", "<i", "<f80"};
    m.descr = source == 2 ? kindDescr((int)draw(4)) : descrs[draw(18)];
    size_t rank = draw(4) == 3 ? draw(5) : 1 + draw(2);
    int64_t total = 1;
    for (size_t i = 0; i < rank; ++i) {
      int64_t d = drawDim();
      if (total * d > 4000) d = 4000 / (total ? total : 1);
      m.shape.push_back(d);
      total *= d;
    }
    fortran = draw(3) != 2;
    size_t es = npy::itemsize(m.descr);
    m.bytes.resize((size_t)total * es);
    for (auto& c : m.bytes) c = (char)s.next();
    std::string file_bytes = m.bytes;
    npy::Style st;
    st.align = flip(2) ? 16 : 64;
    st.extra_pad = (flip(20) ? (int)draw(1000) : (int)draw(3)) * st.align;
    if (flip(4)) { st.order = (int)draw(6); st.terse = flip(2); probe("other-key-order"); }
    g_disk.put(kName, npy::write(m.descr, fortran, m.shape, file_bytes, st));
    kind = drawKind();
    if (!fortran) probe("c-order-file");
  }
  const int request = flip(4) ? drawKind() : kind;
  const bool std_string = flip(6);
  DiskFile& f = *g_disk.files[kName];
  const bool readonly = f.readonly = flip(5);
  g_disk.put("/simdisk/other", other);
  const uint64_t version = f.version;
  const std::string before = f.bytes;
  if (flip(12)) { g_disk.files.erase(kName); }
  const bool missing = !g_disk.exists(kName);
  ioplan::drawStorage(false, (int64_t)before.size());
  Loaded l = loadKind(request, kName, std_string);
  const bool troubled = g_disk.hard_faults > 0 || missing;
  ev("load-model", source, request, m.descr, m.shape.size(), (int)fortran, (int)complete, (int)troubled);
  nontrivial();
  if (isProp("C07")) {
    if (l.o.died) return;
    checkReleased("load");
    if (!missing) {
      SIM_CHECK(g_disk.exists(kName) && g_disk.files[kName]->version == version && g_disk.bytes(kName) == before, "load-modified-file", "a load modified the file");
    } else SIM_CHECK(!g_disk.exists(kName), "load-created-file", "a load created the file");
    checkOnlyTarget(other);
    if (readonly && !troubled && complete && request < kPlain && m.descr == kindDescr(request) && m.shape.size() == kindRank(request) && (fortran || m.shape.size() == 1))
      {
      if (!l.o.ok) {  // would it be loaded if it could be written?
        g_disk.clearPlan();
        g_disk.files[kName]->readonly = false;
        const Loaded again = loadKind(request, kName, std_string);
        SIM_CHECK(!again.o.ok, "readonly-load-failed", "loading a file that may only be read failed (error %d)", l.o.error);
      }
    }
    return;
  }
  SIM_CHECK(!l.o.died, "load-stopped-process", "loading stopped the process (%s)", g_death);
  const bool type_ok = sameType(m.descr, kindDescr(request)), rank_ok = m.shape.size() == kindRank(request);
  const bool order_ok = fortran || m.shape.size() == 1;
  const bool empty2 = m.shape.size() == 2 && (m.shape[0] == 0 || m.shape[1] == 0);
  if (l.o.ok) {
    SIM_CHECK(!missing, "load-ok-missing-file", "loading a missing file reported success");
    SIM_CHECK(type_ok, "load-ok-wrong-type", "a file of %s was loaded as %s", m.descr.c_str(), kindDescr(request));
    SIM_CHECK(rank_ok, "load-ok-wrong-rank", "a file of rank %zu was loaded with rank %zu", m.shape.size(), kindRank(request));
    SIM_CHECK(complete, "load-ok-torn", "a file cut by a crash was loaded with success");
    SIM_CHECK(l.shape == m.shape, "load-shape", "loaded shape %s instead of %s", npy::show(l.shape).c_str(), npy::show(m.shape).c_str());
    std::string want = m.bytes;
    if (!order_ok && !empty2) want = npy::transpose(m.bytes, m.shape, (int)kindSize(request));
    SIM_CHECK(l.bytes == want, "load-elements", "loaded elements differ from those in the file");
    if (g_disk.faults_read) probe("load-ok-despite-read-fault");
  } else {
    if (troubled) probe("load-error-under-fault");
    SIM_CHECK(troubled || !complete || request >= kPlain || !type_ok || !rank_ok || !order_ok, "spurious-load-error",
              "loading a valid file from a healthy disk reported error %d", l.o.error);
  }
}

// ------------------------------------------------------------------ damaged files
void runDamaged() {
  Stream s = stream();
  Model m;
  m.descr = kindDescr((int)draw(4));
  size_t rank = 1 + draw(2);
  int64_t total = 1;
  for (size_t i = 0; i < rank; ++i) {
    int64_t d = (int64_t)draw(14);
    m.shape.push_back(d);
    total *= d;
  }
  m.bytes.resize((size_t)total * npy::itemsize(m.descr));
  for (auto& c : m.bytes) c = (char)s.next();
  npy::Style st;
  st.align = flip(2) ? 16 : 64;
  if (flip(3)) { st.order = (int)draw(6); st.terse = flip(2); }
  static const char* shapes[] = {"(-1,)", "(9223372036854775807,)", "(1, -4)", "(4611686018427387904, 4)", "(2147483648, 2147483648)", "(1000000000,)",
                                 "()", "(,)", "(3", "3)", ")3(", "(3,3,3,3,3,3,3,3,3,3,3)", "(99999999999999999999999,)", "(a,)", "(0,)", "(-9223372036854775808,)", "(0, 9223372036854775807)", "(9223372036854775807, 0)", "(500000,)", "(1,,1)", "(2,3",
                                 "(1152921504606846977,)", "(2305843009213693952,)", "(536870912, 4294967296)",
                                 "(9223372036854775808,)", "(9223372036854775809, 1)", "(18446744073709551617,)", "(18446744073709551616, 3)", "(0, 100000000)", "(30000000, 0)", "(0, 2000000000)", "(2000000000, 0)"};
  std::string b = npy::write(m.descr, draw(2) == 0, m.shape, m.bytes, st);
  const uint64_t nmut = draw(5);
  for (uint64_t i = 0; i < nmut; ++i) {
    const size_t hdr = b.size() < 138 ? b.size() : 138;
    switch (draw(14)) {
      case 0: if (!b.empty()) b[draw(b.size())] ^= (char)(1 << draw(8)); fault("stored-bit-flip"); break;
      case 1: if (hdr) b[draw(hdr)] = (char)draw(256); fault("stored-byte-changed"); break;
      case 2: b.resize((size_t)draw(b.size() + 1)); fault("stored-truncation"); break;
      case 3: { size_t n = draw(40); for (size_t k = 0; k < n; ++k) b += (char)s.next(); fault("stored-extension"); break; }
      case 4: if (b.size() > 9) { b[8] = (char)draw(256); b[9] = (char)(draw(4) ? 0 : draw(256)); } fault("stored-header-length"); break;
      case 5: case 6: case 7: {
        size_t a = b.find('('), e = b.find(')');
        if (a != std::string::npos && e != std::string::npos && a < e && b.size() > 10) {
          std::string ns;
          if (draw(3)) ns = shapes[draw(sizeof shapes / sizeof *shapes)];
          else {  // numbers around powers of 2, some not representable
            const size_t n = 1 + draw(3);
            for (size_t j = 0; j < n; ++j) {
              unsigned __int128 v = (unsigned __int128)1 << (draw(2) ? draw(68) : 60 + draw(8));
              v += draw(20);
              v -= draw(10) < (uint64_t)(v > 10 ? 10 : v) ? draw(10) : 0;
              if (!draw(4)) v = draw(4);
              std::string d;
              do d.insert(d.begin(), (char)('0' + (int)(v % 10))); while (v /= 10);
              ns += (j ? ", " : "(") + d;
            }
            ns += n == 1 ? ",)" : ")";
          }
          size_t old = e + 1 - a;
          // keep the length when possible, by eating the padding
          b.replace(a, old, ns);
          long diff = (long)ns.size() - (long)old;
          size_t nl = b.find('\n', 10);
          if (nl != std::string::npos && diff > 0 && nl > (size_t)diff + e) b.erase(nl - (size_t)diff, (size_t)diff);
          else if (nl != std::string::npos && diff < 0) b.insert(nl, (size_t)(-diff), ' ');
        }
        fault("stored-shape-changed");
        break;
      }
      case 8: if (hdr) { size_t k = draw(hdr); b.erase(k, 1 + draw(8)); } fault("stored-bytes-lost"); break;
      case 9: if (hdr) { size_t k = draw(hdr); b.insert(k, b.substr(draw(hdr), 1 + draw(8))); } fault("stored-bytes-duplicated"); break;
      case 12: case 13: {  // the header ends shortly after the place of one of its parts
        static const char* marks[] = {"fortran_order", "descr", "shape", "(", ")"};
        const size_t k = b.find(marks[draw(5)]), nl = b.find('\n', 10);
        const size_t cut = k + draw(26);
        if (k != std::string::npos && nl != std::string::npos && cut < nl) {
          b.erase(cut, nl - cut);
          b[8] = (char)((cut - 9) & 255);
          b[9] = (char)((cut - 9) >> 8);
        }
        fault("stored-header-cut");
        break;
      }
      case 10: { size_t k = b.find('\''); while (k != std::string::npos && flip(2)) k = b.find('\'', k + 1); if (k != std::string::npos) b.erase(k, 1); fault("stored-quote-lost"); break; }
      default: { size_t k = hdr ? draw(hdr) : 0; if (k < b.size()) b[k] = "\0\n(),'<>|[]{}-0129 "[draw(19)]; fault("stored-syntax-changed"); break; }
    }
  }
  if (flip(20)) { b.assign((size_t)draw(200), '\0'); for (auto& c : b) c = (char)s.next(); }
  g_disk.put(kName, b);
  g_disk.clearPlan();
  g_disk.bufsize = draw(2) ? 0 : 1 + (int)draw(300);
  if (flip(3)) g_disk.rate[F_SHORT_READ] = 2;
  if (flip(6)) g_disk.read_error_at = (int64_t)draw(b.size() + 2);
  const int request = drawKind();
  const uint64_t n0 = steps();
  setStepBudget(200000 + 400 * (uint64_t)b.size());
  g_alloc.max_single = 1u << 30;  // a small container: an absurd request is refused
  g_alloc.max_single = 16 * b.size() + (1u << 17);
  Loaded l = loadKind(request, kName, false);
  unused(n0);
  ev("damaged", request, b);
  nontrivial();
  if (isProp("C07")) {
    if (l.o.died) return;
    checkReleased("load");
    SIM_CHECK(g_disk.bytes(kName) == b, "load-modified-file", "a load modified the file");
    return;
  }
  SIM_CHECK(g_astats.largest_request <= 16 * b.size() + (1u << 17), "oversized-allocation",
            "loading a file of %zu bytes requested %lu bytes at once", b.size(), (unsigned long)g_astats.largest_request);
  SIM_CHECK(!l.o.died, "damaged-load-stopped-process", "loading a damaged file of %zu bytes stopped the process (%s)", b.size(), g_death);
  if (l.o.ok) {
    probe("damaged-load-ok");
    SIM_CHECK(b.size() >= 10, "damaged-load-ok", "a file of %zu bytes was loaded", b.size());
    size_t h = (size_t)(unsigned char)b[8] + 256 * (size_t)(unsigned char)b[9];
    size_t n = l.bytes.size();
    int64_t cells = 1;
    for (int64_t d : l.shape) cells *= d;
    SIM_CHECK(10 + h + n <= b.size() && b.compare(10 + h, n, l.bytes) == 0, "damaged-load-elements",
              "the %zu bytes of elements returned are not those following the header (file of %zu bytes)", n, b.size());
    SIM_CHECK(!(g_disk.faults_read), "damaged-load-ok-after-read-error", "success although a read failed");
    unused(cells);
  } else probe("damaged-load-error");
}

// ------------------------------------------------------------------ sparse matrices
// Three files: the beginnings of the rows, the columns and the elements.
const char* const kPart[] = {".row", ".column", ".element"};
void runSparse(bool damage) {
  Stream s = stream();
  const std::string other = "do not touch";
  g_disk.put("/simdisk/other", other);
  const int64_t n = draw(5) == 0 ? 0 : 1 + (int64_t)draw(thorough() ? 60 : 20);
  std::vector<int64_t> row{0}, col;
  std::vector<double> el;
  for (int64_t i = 0; i < n; ++i) {
    for (int64_t j = 0; j < n; ++j)
      if (s.next() % 4 == 0) { col.push_back(j); el.push_back(element<double>(s)); }
    row.push_back((int64_t)col.size());
  }
  bool valid = true, torn = false;
  if (damage) {
    const uint64_t nmut = 1 + draw(2);
    for (uint64_t k = 0; k < nmut; ++k) {
      static const int64_t odd[] = {-1, 0, 1, INT64_MAX, INT64_MIN, 1 << 20, (int64_t)1 << 40, -7};
      const int64_t x = draw(3) ? odd[draw(8)] : (int64_t)draw(40);
      switch (draw(8)) {
        case 0: if (!row.empty()) row[draw(row.size())] = x; fault("stored-row-changed"); break;
        case 1: if (!row.empty()) row.back() = x; fault("stored-row-changed"); break;
        case 2: if (!col.empty()) col[draw(col.size())] = x; fault("stored-column-changed"); break;
        case 3: if (!col.empty()) col.pop_back(); fault("stored-column-lost"); break;
        case 4: col.push_back(x); fault("stored-column-added"); break;
        case 5: if (!el.empty()) el.pop_back(); fault("stored-element-lost"); break;
        case 6: row.resize((size_t)draw(row.size() + 1)); fault("stored-row-lost"); break;
        default: el.push_back(1.0); row.push_back(x); fault("stored-element-added"); break;
      }
    }
  }
  {  // what a matrix is
    const int64_t m = (int64_t)row.size() - 1;
    valid = m >= 0 && row[0] == 0 && row[(size_t)m] == (int64_t)col.size() && col.size() == el.size();
    for (int64_t i = 0; valid && i < m; ++i) valid = row[(size_t)i] <= row[(size_t)i + 1];
    for (size_t k = 0; valid && k < col.size(); ++k) valid = col[k] >= 0 && col[k] < m;
  }
  std::string bytes[3];
  bytes[0].assign((const char*)row.data(), row.size() * 8);
  bytes[1].assign((const char*)col.data(), col.size() * 8);
  bytes[2].assign((const char*)el.data(), el.size() * 8);
  std::string file[3];
  bool missing = false;
  for (int k = 0; k < 3; ++k) {
    const char* d = k == 2 ? "<f8" : "<i8";
    if (flip(20)) { d = k == 2 ? "<i8" : "<f8"; torn = true; }
    file[k] = npy::write(d, draw(2) == 0, {(int64_t)(bytes[k].size() / 8)}, bytes[k], npy::Style());
    if (damage && flip(6)) { file[k].resize((size_t)draw(file[k].size())); torn = true; fault("stored-truncation"); }
    if (flip(25)) { missing = true; continue; }
    g_disk.put(std::string(kName) + kPart[k], file[k]);
  }
  ioplan::drawStorage(false, (int64_t)(file[0].size() + file[1].size() + file[2].size()));
  if (damage) { setStepBudget(2000000); g_alloc.max_single = 16 * (file[0].size() + file[1].size() + file[2].size()) + (1u << 17); }
  Outcome o;
  std::vector<int64_t> lr, lc, size(2, -1);
  std::vector<double> le;
  const bool std_string = flip(4);
  refuseMemory();
  End e = guarded([&] {
    typedef il::SparseMatrixCSR<il::int_t, double> M;
    il::Status status{};
    M A = std_string ? il::load<M>(std::string(kName), il::io, status) : il::load<M>(ilString(kName), il::io, status);
    o.ok = status.Ok();
    o.error = o.ok ? -1 : (int)status.error();
    if (o.ok) {
      Host h;
      size = {A.size(0), A.size(1)};
      for (il::int_t i = 0; i <= A.size(0); ++i) lr.push_back(A.row(i));
      for (il::int_t k = 0; k < A.nbNonZeros(); ++k) { lc.push_back(A.column(k)); le.push_back(A.element(k)); }
    }
  });
  o.died = e == End::Died;
  checkRefused("load", o.died);
  ev("sparse", o.died ? -1 : (int)o.ok, o.error, n, row.size(), col.size(), (int)damage);
  nontrivial();
  const bool troubled = g_disk.hard_faults > 0 || missing;
  if (isProp("C20")) return;
  if (isProp("C07")) {
    if (o.died) return;
    checkReleased("load");
    for (int k = 0; k < 3; ++k)
      if (g_disk.exists(std::string(kName) + kPart[k]))
        SIM_CHECK(g_disk.bytes(std::string(kName) + kPart[k]) == file[k], "load-modified-file", "a load modified the file");
    checkOnlyTarget(other);
    return;
  }
  SIM_CHECK(!o.died, "sparse-load-stopped-process", "loading a sparse matrix stopped the process (%s)", g_death);
  if (!o.ok) {
    SIM_CHECK(troubled || torn || !valid, "spurious-sparse-load-error", "loading a valid sparse matrix from a healthy disk reported error %d", o.error);
    probe("sparse-load-error");
    return;
  }
  probe("sparse-load-ok");
  SIM_CHECK(!missing, "load-ok-missing-file", "loading a sparse matrix with a missing file reported success");
  SIM_CHECK(!g_disk.faults_open, "load-ok-after-failure", "success although a file could not be opened");
  SIM_CHECK(valid && !torn, "sparse-load-ok-invalid", "files that do not describe a matrix were loaded with success");
  SIM_CHECK(size[0] == (int64_t)row.size() - 1 && size[1] == size[0] && lr == row && lc == col &&
                le.size() == el.size() && (el.empty() || std::memcmp(le.data(), el.data(), 8 * el.size()) == 0),
            "sparse-load-elements", "the matrix loaded is not the one of the files");
}

}  // namespace

void world_npy() {
  if (isProp("C20") && flip(8)) { runSparse(false); return; }
  if (isProp("C20")) {
    Model m;
    g_disk.put("/simdisk/other", "do not touch");
    const int kind = (int)draw(kPlain);
    if (draw(2) == 0) {
      saveKind(kind, m, flip(3), -1, draw(2) == 1, false);
    } else {
      m.descr = kindDescr(kind);
      int64_t total = 1;
      for (size_t i = 0; i < kindRank(kind); ++i) { m.shape.push_back((int64_t)draw(30)); total *= m.shape.back(); }
      m.bytes.assign((size_t)total * npy::itemsize(m.descr), 'x');
      g_disk.put(kName, npy::write(m.descr, true, m.shape, m.bytes, npy::Style()));
      ioplan::drawStorage(false, (int64_t)m.bytes.size() + 128);
      loadKind(kind, kName, flip(6));
    }
    nontrivial();
    return;
  }
  if (isProp("C01")) runSave();
  else if (isProp("C02")) { if (flip(8)) runSparse(false); else runLoad(); }
  else if (isProp("C03")) { if (flip(8)) runSparse(true); else runDamaged(); }
  else {
    switch (draw(4)) {
      case 3: runSparse(draw(2) == 1); break;
      case 0: runSave(); break;
      case 1: runLoad(); break;
      default: runDamaged(); break;
    }
  }
}
