// .toml world: C04 (save), C05 (load), C06 (malformed files), C07 (handles, leaks).
#include <cmath>


#include "io_all.h"
#include "common.h"
#include "toml_ref.h"
#include "tree.h"

using namespace sim;
using namespace tree;

namespace {
const char* kName = "/simdisk/x.toml";
const char* kOther = "/simdisk/other.toml";
typedef il::MapArray<il::String, il::Dynamic> DMapArray;
typedef il::Map<il::String, il::Dynamic> DMap;
typedef il::Array<il::Dynamic> DArr;

// ------------------------------------------------------------------ values
V drawScalar(Stream& s, int type) {
  switch (type) {
    case 0: return V::integer(drawInt(s));
    case 1: return V::boolean(s.next() & 1);
    case 2: return V::real(drawDouble(s));
    default: return V::str(drawText(s, false));
  }
}
struct Limits {
  int depth = 3;
  int64_t nodes = 60;
  bool tables_in_arrays = true;
};
V drawTab(Stream& s, Limits& l, int depth);
V drawArr(Stream& s, Limits& l, int depth) {
  V v = V::arr();
  const int type = (int)draw(depth < l.depth ? (l.tables_in_arrays ? 6 : 5) : 4);
  const size_t n = flip(20) ? 20 + draw(120) : draw(6);
  for (size_t i = 0; i < n && l.nodes > 0; ++i) {
    --l.nodes;
    if (type < 4) v.a.push_back(drawScalar(s, type));
    else if (type == 4) v.a.push_back(drawArr(s, l, depth + 1));
    else v.a.push_back(drawTab(s, l, depth + 1));
  }
  if (type == 2 || v.a.empty()) v.rep = (int)draw(2);                    // 1: an array of double
  if (type == 2 && draw(3) == 2) {                                       // 2: an array of dimension 2
    v.rep = 2;
    v.n0 = (int64_t)draw(5);
    v.n1 = (int64_t)draw(5);
    v.a.clear();
    for (int64_t i = 0; i < v.n0; ++i) {
      V row = V::arr();
      for (int64_t j = 0; j < v.n1; ++j) row.a.push_back(V::real(drawDouble(s)));
      v.a.push_back(row);
    }
  }
  return v;
}
V drawTab(Stream& s, Limits& l, int depth) {
  V v = V::tab();
  v.rep = draw(4) == 3;  // 1: an unordered map
  const size_t n = depth == 0 ? (flip(30) ? 30 + draw(60) : draw(8)) : draw(5);
  for (size_t i = 0; i < n && l.nodes > 0; ++i) {
    --l.nodes;
    const std::string k = drawKey(s, v);
    const int type = (int)draw(depth < l.depth ? 8 : 6);
    if (type < 4) v.t.emplace_back(k, drawScalar(s, type));
    else if (type < 6) v.t.emplace_back(k, drawArr(s, l, depth + 1));
    else v.t.emplace_back(k, drawTab(s, l, depth + 1));
  }
  return v;
}
V drawTree() {
  Stream s = stream();
  Limits l;
  l.depth = (int)draw(draw(8) == 7 ? 12 : 4);
  l.nodes = flip(6) ? 200 : 40;
  V v = drawTab(s, l, 0);
  return v;
}

// ------------------------------------------------------------------ to and from the library
il::Dynamic make(const V& v);
template <typename M>
void fill(const V& v, M& m) {
  for (auto& p : v.t) m.Set(ilText(p.first), make(p.second));
}
il::Dynamic make(const V& v) {
  switch (v.k) {
    case V::Bool: return il::Dynamic{v.b};
    case V::Int: return il::Dynamic{(il::int_t)v.i};
    case V::Dbl: return il::Dynamic{v.d};
    case V::Str: return il::Dynamic{ilText(v.s)};
    case V::Arr:
      if (v.rep == 2) {
        il::Array2D<double> a{(il::int_t)v.n0, (il::int_t)v.n1};
        for (il::int_t i = 0; i < v.n0; ++i)
          for (il::int_t j = 0; j < v.n1; ++j) a(i, j) = v.a[(size_t)i].a[(size_t)j].d;
        return il::Dynamic{a};
      } else if (v.rep == 1) {
        il::Array<double> a{};
        for (auto& x : v.a) a.Append(x.d);
        return il::Dynamic{a};
      } else {
        DArr a{};
        for (auto& x : v.a) a.Append(make(x));
        return il::Dynamic{a};
      }
    case V::Tab:
      if (v.rep == 1) { DMap m{}; fill(v, m); return il::Dynamic{std::move(m)}; }
      else { DMapArray m{}; fill(v, m); return il::Dynamic{std::move(m)}; }
    default:  // a type that a .toml file can not hold
      switch (v.i % 5) {
        case 0: return il::Dynamic{};
        case 1: return il::Dynamic{(float)1.5};
        case 2: return il::Dynamic{il::Array<int>{}};
        case 3: return il::Dynamic{(unsigned char)3};
        default: return il::Dynamic{il::Array<unsigned char>{}};
      }
  }
}
V other() { V v; v.k = V::Other; return v; }
V read(const il::Dynamic& d);
template <typename M>
V readMap(const M& m) {
  V v = V::tab();
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) v.t.emplace_back(text(m.key(i)), read(m.value(i)));
  return v;
}
V read(const il::Dynamic& d) {
  switch (d.type()) {
    case il::Type::Bool: return V::boolean(d.to<bool>());
    case il::Type::Integer: return V::integer(d.to<il::int_t>());
    case il::Type::Double: return V::real(d.to<double>());
    case il::Type::UnicodeString: return V::str(text(d.as<il::String>()));
    case il::Type::ArrayOfDynamic: {
      V v = V::arr();
      const DArr& a = d.as<DArr>();
      for (il::int_t i = 0; i < a.size(); ++i) v.a.push_back(read(a[i]));
      return v;
    }
    case il::Type::ArrayOfDouble: {
      V v = V::arr();
      const il::Array<double>& a = d.as<il::Array<double>>();
      for (il::int_t i = 0; i < a.size(); ++i) v.a.push_back(V::real(a[i]));
      return v;
    }
    case il::Type::MapArrayStringToDynamic: return readMap(d.as<DMapArray>());
    case il::Type::MapStringToDynamic: return readMap(d.as<DMap>());
    default: return other();
  }
}

void refuseMemory() {
  if (isProp("C20")) g_alloc.fail_at = g_astats.count + 1 + draw(draw(2) ? 200 : 12);
}
void checkRefused(const char* what, bool died) {
  if (!isProp("C20")) return;
  SIM_CHECK(g_astats.failed == 0 || died, "continued-without-memory", "%s went on although its memory request was refused", what);
  g_alloc.fail_at = 0;
}
template <typename A>
Outcome saveSut(const A& a) {
  Outcome o;
  refuseMemory();
  End e = guarded([&] {
    il::Status status{};
    const il::String filename = ilString(kName);
    il::save(a, filename, il::io, status);
    o.ok = status.Ok();
    o.error = o.ok ? -1 : (int)status.error();
  });
  o.died = e == End::Died;
  checkRefused("save", o.died);
  ev("save", o.died ? -1 : (int)o.ok, o.error);
  return o;
}
struct Loaded {
  Outcome o;
  V v;
};
Loaded loadSut(bool std_string) {
  Loaded l;
  refuseMemory();
  End e = guarded([&] {
    il::Status status{};
    auto out = [&](const DMapArray& m) {
      l.o.ok = status.Ok();
      l.o.error = l.o.ok ? -1 : (int)status.error();
      if (l.o.ok) { Host h; l.v = readMap(m); }
    };
    if (std_string) out(il::load<DMapArray>(std::string(kName), il::io, status));
    else {
      const il::String filename = ilString(kName);
      out(il::load<DMapArray>(filename, il::io, status));
    }
  });
  l.o.died = e == End::Died;
  checkRefused("load", l.o.died);
  ev("load", l.o.died ? -1 : (int)l.o.ok, l.o.error, l.o.ok ? toml::show(l.v, 4000) : std::string());
  return l;
}
void checkOthers(const std::string& other_bytes) {
  for (auto& f : g_disk.files)
    SIM_CHECK(f.first == kName || f.first == kOther, "stray-file", "the file %s was left", f.first.c_str());
  SIM_CHECK(g_disk.exists(kOther) && g_disk.bytes(kOther) == other_bytes, "other-file-touched", "another file was changed");
}
void checkReleased(const char* what) {
  SIM_CHECK(g_disk.nb_open == 0, "handle-leak", "%s returned with %lu file(s) open", what, (unsigned long)g_disk.nb_open);
  SIM_CHECK(g_astats.live == 0, "memory-leak", "%s lost memory: %s", what, describeLive().c_str());
}

// Saves a tree: on a healthy disk to know how long it is, then as planned.
// crash: the process is lost while it saves.
Outcome saveTree(const V& tree, bool faults, bool crash, bool healthy_first, bool& readonly, const std::string& old, bool has_old) {
  Outcome o;
  auto go = [&](const std::function<Outcome()>& save) {
    int64_t size = 100 + 20 * (int64_t)tree.t.size();
    if (healthy_first) {
      g_disk.clearPlan();
      o = save();
      if (o.died || !o.ok) return;
      size = (int64_t)g_disk.bytes(kName).size();
      g_disk.files.erase(kName);
    }
    if (has_old) { DiskFile& f = g_disk.put(kName, old); f.readonly = readonly; }
    if (faults) ioplan::drawStorage(true, size);
    if (crash) g_disk.crash_after = (int64_t)draw((uint64_t)size + 1);
    o = save();
  };
  if (tree.rep == 1) {
    Boxed<DMap> b{[&](void* p) { Sut g; DMap* m = new (p) DMap{}; fill(tree, *m); }};
    go([&] { return saveSut(*b); });
    if (!o.died) b.destroy();
  } else {
    Boxed<DMapArray> b{[&](void* p) { Sut g; DMapArray* m = new (p) DMapArray{}; fill(tree, *m); }};
    go([&] { return saveSut(*b); });
    if (!o.died) b.destroy();
  }
  return o;
}

// ------------------------------------------------------------------ save
void runSave() {
  const std::string others = "a = 1\n";
  g_disk.put(kOther, others);
  V tree = drawTree();
  const bool unsupported = flip(12);
  if (unsupported) {
    V x = other();
    x.i = (int64_t)draw(5);
    V* at = &tree;
    while (true) {  // somewhere in the tree
      V* next = nullptr;
      for (auto& p : at->t) if (p.second.k == V::Tab && flip(2)) next = &p.second;
      if (!next) break;
      at = next;
    }
    if (draw(2)) at->t.emplace_back("unsupported", x);
    else { V a = V::arr(); a.a.push_back(x); at->t.emplace_back("unsupported", a); }
  }
  std::string old;
  bool readonly = false;
  const bool has_old = flip(3);
  if (has_old) {
    Stream s = stream();
    old.resize((size_t)draw(600));
    for (auto& c : old) c = (char)s.next();
    readonly = flip(5);
  }
  Outcome o = saveTree(tree, true, false, true, readonly, old, has_old);
  const bool troubled = g_disk.hard_faults > 0 || readonly;
  ev("model", toml::show(tree, 400), (int)troubled);
  nontrivial();
  if (isProp("C07")) {
    if (o.died) return;
    checkReleased("save");
    checkOthers(others);
    return;
  }
  SIM_CHECK(!o.died, "save-stopped-process", "saving stopped the process (%s) after %lu storage fault(s)", g_death, (unsigned long)g_disk.hard_faults);
  if (!o.ok) {
    SIM_CHECK(troubled || unsupported, "spurious-save-error", "saving reported error %d although the storage did not fail", o.error);
    if (g_disk.bytes_written > 0) probe("save-failed-half-way");
    return;
  }
  SIM_CHECK(!(g_disk.faults_open || g_disk.faults_write || g_disk.faults_close) && !readonly, "save-ok-after-failure",
            "saving reported success although the storage failed (open %lu, write %lu, close %lu)",
            (unsigned long)g_disk.faults_open, (unsigned long)g_disk.faults_write, (unsigned long)g_disk.faults_close);
  SIM_CHECK(g_disk.nb_open == 0, "save-ok-not-closed", "saving reported success with the file still open");
  SIM_CHECK(g_disk.exists(kName), "save-ok-no-file", "saving reported success and there is no file");
  if (unsupported) { probe("save-ok-unsupported-type"); return; }
  ev("file", g_disk.bytes(kName));
  toml::Parsed p = toml::parse(g_disk.bytes(kName));
  SIM_CHECK(p.valid, "saved-file-invalid", "saving reported success, the file is not valid: %s", p.why.c_str());
  const std::string e = toml::differ(p.v, tree, "");
  SIM_CHECK(e.empty(), "saved-values", "the file holds something else: %s", e.c_str());
}

// ------------------------------------------------------------------ documents
// Writes documents in all the ways the subset allows.
struct Writer {
  Stream s;
  std::string o;
  int nl;               // 0: \n, 1: \r\n, 2: both
  bool spaces, comments, escapes, plus, long_lines;
  int huge;  // how many very long gaps and comments are left
  explicit Writer() : s{stream()} {
    nl = (int)draw(3);
    spaces = draw(2);
    comments = draw(2);
    escapes = draw(2);
    plus = draw(2);
    long_lines = flip(6);
    huge = flip(40) ? 2 : 0;
  }
  bool yes(bool on, uint64_t k) { return on && s.next() % k == 0; }
  void ws() {
    if (huge && s.next() % 30 == 0) { --huge; probe("huge-gap"); o.append(2000 + s.next() % 80000, ' '); }
    if (!spaces) return;
    const uint64_t r = s.next();
    size_t n = r % 4 == 0 ? (r >> 8) % 4 : r % 4 == 1 ? 1 : 0;
    if (yes(long_lines, 8)) n = 180 + s.next() % 200;
    for (size_t i = 0; i < n; ++i) o += s.next() % 5 == 0 ? '\t' : ' ';
  }
  void newline() {
    if (nl == 1 || (nl == 2 && (s.next() & 1))) o += '\r';
    o += '\n';
  }
  void comment() {
    o += '#';
    size_t n = s.next() % 30;
    if (yes(long_lines, 3)) n = 150 + s.next() % 300;
    static const char* bits[] = {"a", " ", "=", "[", "]", "\"", "'", "#", "}", "{", ",", "\\", "\t", "x = 1", "\xC3\xA9", "\"\"\""};
    if (huge && s.next() % 4 == 0) { --huge; probe("huge-comment"); n = 2000 + s.next() % 60000; }
    for (size_t i = 0; i < n; ++i) o += bits[s.next() % 16];
  }
  void endLine() {
    ws();
    if (yes(comments, 4)) comment();
    newline();
    while (yes(comments || spaces, 4)) { ws(); if (yes(comments, 2)) comment(); newline(); }
  }
  void basic(const std::string& t) {
    o += '"';
    for (size_t i = 0; i < t.size();) {
      const unsigned char c = (unsigned char)t[i];
      char b[16];
      if (c >= 0x80) {  // one code point, as it is or escaped
        size_t n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
        uint32_t r = c & (n == 4 ? 7u : n == 3 ? 15u : 31u);
        for (size_t j = 1; j < n; ++j) r = r << 6 | ((unsigned char)t[i + j] & 63u);
        if (yes(escapes, 3)) {
          if (r > 0xFFFF || (s.next() & 1)) std::snprintf(b, sizeof b, (s.next() & 1) ? "\\U%08X" : "\\U%08x", r);
          else std::snprintf(b, sizeof b, (s.next() & 1) ? "\\u%04X" : "\\u%04x", r);
          o += b;
        } else o += t.substr(i, n);
        i += n;
        continue;
      }
      ++i;
      const char* e = c == '\b' ? "\\b" : c == '\t' ? "\\t" : c == '\n' ? "\\n" : c == '\f' ? "\\f" : c == '\r' ? "\\r" : c == '"' ? "\\\"" : c == '\\' ? "\\\\" : nullptr;
      if (c == '\t' && (s.next() & 1)) e = nullptr, o += '\t';
      else if (e && !yes(escapes, 5)) o += e;
      else if (e || c < 32 || c == 127 || yes(escapes, 20)) { std::snprintf(b, sizeof b, yes(escapes, 3) ? "\\U%08x" : "\\u%04x", c); o += b; }
      else o += (char)c;
    }
    o += '"';
  }
  static bool literalOk(const std::string& t) {
    for (unsigned char c : t) if ((c < 32 && c != '\t') || c == 127 || c == '\'') return false;
    return true;
  }
  void str(const std::string& t) {
    if (literalOk(t) && s.next() % 2) o += "'" + t + "'";
    else basic(t);
  }
  void key(const std::string& k) {
    bool bare = !k.empty();
    for (char c : k) if (!toml::Reader::bareChar(c)) bare = false;
    if (bare && s.next() % 4) o += k;
    else str(k);
  }
  // digits with '_' here and there
  void digits(const std::string& d) {
    for (size_t i = 0; i < d.size(); ++i) {
      if (i && yes(plus, 4)) o += '_';
      o += d[i];
    }
  }
  void number(int64_t i) {
    std::string d = std::to_string((long long)i);
    if (d[0] == '-') { o += '-'; d.erase(0, 1); }
    else if (yes(plus, 3)) o += '+';
    else if (i == 0 && yes(plus, 3)) o += '-';
    digits(d);
  }
  // writes a number with a drawn text and returns its value
  double number() {
    std::string t;
    while (true) {
      t.clear();
      const uint64_t r = s.next();
      if (r % 4 == 0) t += '-';
      else if (plus && r % 4 == 1) t += '+';
      const size_t n = 1 + (r >> 8) % ((r >> 4) % 8 == 0 ? 25 : 5);
      for (size_t i = 0; i < n; ++i) t += (char)('0' + (i == 0 && n > 1 ? 1 + s.next() % 9 : s.next() % 10));
      const int form = 1 + (int)((r >> 16) % 3);
      if (form & 1) {
        t += '.';
        const size_t f = 1 + (r >> 20) % ((r >> 24) % 8 == 0 ? 25 : 5);
        for (size_t i = 0; i < f; ++i) t += (char)('0' + s.next() % 10);
      }
      if (form & 2) {
        t += (r >> 32) & 1 ? 'e' : 'E';
        const int e = (int)((r >> 34) % ((r >> 33) & 1 ? 20 : 320));
        if ((r >> 45) & 1) t += '-';
        else if ((r >> 46) & 1) t += '+';
        if ((r >> 47) % 8 == 0) t += '0';
        t += std::to_string(e);
      }
      if (std::isfinite(std::strtod(t.c_str(), nullptr))) break;
    }
    const double x = std::strtod(t.c_str(), nullptr);
    for (size_t i = 0; i < t.size(); ++i) {
      if (i && t[i] >= '0' && t[i] <= '9' && t[i - 1] >= '0' && t[i - 1] <= '9' && yes(plus, 6)) o += '_';
      o += t[i];
    }
    return x;
  }
  // between two tokens of an array
  void gap(bool multi) {
    ws();
    if (!multi) return;
    while (s.next() % 4 == 0) { if (yes(comments, 3)) comment(); newline(); ws(); }
  }
  // writes v; numbers may be changed to what the text says
  void value(V& v) {
    switch (v.k) {
      case V::Bool: o += v.b ? "true" : "false"; break;
      case V::Int: number(v.i); break;
      case V::Dbl:
        if (s.next() % 2) v.d = number();
        else { char b[64]; std::snprintf(b, sizeof b, s.next() % 2 ? "%.17e" : "%.16e", v.d); o += b; }
        break;
      case V::Str: str(v.s); break;
      case V::Arr: {
        const bool multi = inline_depth == 0 && s.next() % 2;
        o += '[';
        gap(multi);
        for (size_t i = 0; i < v.a.size(); ++i) {
          value(v.a[i]);
          gap(multi);
          if (i + 1 < v.a.size()) { o += ','; gap(multi); }
        }
        if (!v.a.empty() && s.next() % 3 == 0) { o += ','; gap(multi); }
        o += ']';
        break;
      }
      case V::Tab:
        // an inline table is written on one line
        ++inline_depth;
        o += '{';
        ws();
        for (size_t i = 0; i < v.t.size(); ++i) {
          ws();
          key(v.t[i].first);
          ws();
          o += '=';
          ws();
          value(v.t[i].second);
          ws();
          if (i + 1 < v.t.size()) o += ',';
        }
        o += '}';
        --inline_depth;
        break;
      default: break;
    }
  }
  int inline_depth = 0;
  void header(const std::vector<std::string>& path, bool list) {
    ws();
    o += list ? "[[" : "[";
    for (size_t i = 0; i < path.size(); ++i) {
      ws();
      key(path[i]);
      ws();
      if (i + 1 < path.size()) o += '.';
    }
    o += list ? "]]" : "]";
    endLine();
  }
  static bool arrayOfTables(const V& v) {
    if (v.k != V::Arr || v.a.empty()) return false;
    for (auto& x : v.a) if (x.k != V::Tab) return false;
    return true;
  }
  void table(V& v, std::vector<std::string>& path, bool list) {
    const size_t n = v.t.size();
    std::vector<char> sub(n, 0);
    bool any_own = false, any_sub = false;
    for (size_t i = 0; i < n; ++i) {
      V& x = v.t[i].second;
      if ((x.k == V::Tab || arrayOfTables(x)) && path.size() < 100 && s.next() % 4 != 0) sub[i] = 1, any_sub = true;
      else any_own = true;
    }
    const bool root = path.empty();
    const bool implicit = !root && !list && !any_own && any_sub && s.next() % 2;
    const bool late = !root && !list && !implicit && any_sub && s.next() % 4 == 0;
    auto own = [&] {
      if (!root && !implicit) header(path, list);
      for (size_t i = 0; i < n; ++i) {
        if (sub[i]) continue;
        ws();
        key(v.t[i].first);
        ws();
        o += '=';
        ws();
        value(v.t[i].second);
        endLine();
      }
    };
    if (!late) own();
    for (size_t i = 0; i < n; ++i) {
      if (!sub[i]) continue;
      V& x = v.t[i].second;
      path.push_back(v.t[i].first);
      if (x.k == V::Tab) table(x, path, false);
      else for (auto& y : x.a) table(y, path, true);
      path.pop_back();
    }
    if (late) own();
  }
  std::string document(V& root) {
    o.clear();
    if (s.next() % 4 == 0) endLine();
    std::vector<std::string> path;
    table(root, path, false);
    // the last line may have no end
    if (s.next() % 3 == 0) {
      while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
    }
    return o;
  }
};

// ------------------------------------------------------------------ load
void runLoad() {
  const std::string others = "a = 1\n";
  g_disk.put(kOther, others);
  V tree = drawTree();
  Writer w;
  std::string b = w.document(tree);
  const toml::Parsed p = toml::parse(b);
  if (!p.valid || !toml::differ(p.v, tree, "").empty()) {
    violate("harness", "the reference reader does not read the document: %s %s\n%s", p.why.c_str(), p.valid ? toml::differ(p.v, tree, "").c_str() : "", b.c_str());
  }
  // an integer that no il::int_t holds: no success can be exact
  const bool unrepresentable = !isProp("C07") && flip(10);
  if (unrepresentable) {
    static const char* big[] = {"9223372036854775808", "-9223372036854775809", "+9223372036854775808", "99999999999999999999999999", "18446744073709551617", "9_223_372_036_854_775_808"};
    const char* x = big[draw(6)];
    const uint64_t how = draw(4);
    b = std::string("too_big = ") + (how == 1 ? "[1, " : how == 2 ? "{a = " : how == 3 ? "[" : "") + x + (how == 1 ? "]" : how == 2 ? "}" : how == 3 ? ", 2]" : "") + "\n" + b;
    fault("stored-integer-overflow");
  }
  DiskFile& f = g_disk.put(kName, b);
  const bool readonly = f.readonly = flip(5);
  const uint64_t version = f.version;
  const bool missing = flip(30);
  if (missing) g_disk.files.erase(kName);
  const bool std_string = flip(6);
  ioplan::drawStorage(false, (int64_t)b.size());
  ev("document", b);
  Loaded l = loadSut(std_string);
  const bool troubled = g_disk.faults_open || g_disk.faults_read || g_disk.faults_close || missing;
  nontrivial();
  if (isProp("C07")) {
    if (l.o.died) return;
    checkReleased("load");
    SIM_CHECK(missing ? !g_disk.exists(kName) : g_disk.exists(kName) && g_disk.files[kName]->version == version && g_disk.bytes(kName) == b,
              "load-modified-file", "a load modified the file");
    checkOthers(others);
    if (readonly && !troubled && !g_disk.hard_faults) {
      if (!l.o.ok) {  // would it be loaded if it could be written?
        g_disk.clearPlan();
        g_disk.files[kName]->readonly = false;
        const Loaded again = loadSut(std_string);
        SIM_CHECK(!again.o.ok, "readonly-load-failed", "loading a file that may only be read failed (error %d)", l.o.error);
      }
    }
    return;
  }
  SIM_CHECK(!l.o.died, "load-stopped-process", "loading stopped the process (%s)", g_death);
  SIM_CHECK(!(l.o.ok && unrepresentable), "unrepresentable-integer-accepted", "loading reported success although the document holds an integer that cannot be represented");
  if (!l.o.ok) {
    if (unrepresentable) return;
    SIM_CHECK(troubled || g_disk.hard_faults > 0, "spurious-load-error", "loading a valid document from a healthy disk reported error %d", l.o.error);
    if (troubled) probe("load-error-under-fault");
    return;
  }
  SIM_CHECK(!troubled, "load-ok-after-failure", "loading reported success although the storage failed (open %lu, read %lu, close %lu%s)",
            (unsigned long)g_disk.faults_open, (unsigned long)g_disk.faults_read, (unsigned long)g_disk.faults_close, missing ? ", missing file" : "");
  const std::string e = toml::differ(l.v, tree, "");
  SIM_CHECK(e.empty(), "loaded-values", "what was loaded is not the document: %s", e.c_str());
}

// ------------------------------------------------------------------ malformed files
void runDamaged() {
  const std::string others = "a = 1\n";
  g_disk.put(kOther, others);
  std::string b;
  bool cut_only = false;
  const int source = (int)draw(16) == 15 ? 7 : (int)draw(7);
  if (source == 7) {  // nested as deep as the file is long
    static const char* open[] = {"[", "{a=", "[[", "{\"a\"=", "[{a=", "a.", "[\n"};
    const int k = (int)draw(7);
    const size_t n = draw(2) ? 190 + draw(30) : draw(thorough() ? 60000 : 4000);
    if (k == 5) { b = draw(2) ? "[" : "[["; for (size_t i = 0; i < n; ++i) b += "a."; b += "b]"; if (b[1] == '[') b += "]"; }
    else {
      b = "x = ";
      for (size_t i = 0; i < n; ++i) b += open[k];
      if (draw(2)) {  // and closed
        b += k == 1 || k == 3 || k == 4 ? "1" : "";
        for (size_t i = 0; i < n; ++i) b += k == 1 || k == 3 ? "}" : k == 4 ? "}]" : k == 2 ? "]]" : "]";
      }
    }
    b += "\n";
    fault("stored-deep-nesting");
  } else if (source == 6) {  // a save interrupted by a crash
    V tree = drawTree();
    bool readonly = false;
    Outcome o = saveTree(tree, false, true, false, readonly, "", false);
    if (o.died) return;
    g_disk.clearPlan();
    g_disk.crashed = false;
    if (g_disk.exists(kName)) b = g_disk.bytes(kName);
    cut_only = true;
  } else {
    V tree = drawTree();
    Writer w;
    b = w.document(tree);
    if (source == 5) { b.resize((size_t)draw(b.size() + 1)); cut_only = true; fault("stored-truncation"); }
    else {
      Stream s = stream();
      const uint64_t nmut = 1 + draw(4);
      for (uint64_t i = 0; i < nmut; ++i) {
        const uint64_t at = draw(b.size() + 1);
        switch (draw(14)) {
          case 0: if (at < b.size()) b[at] ^= (char)(1 << draw(8)); fault("stored-bit-flip"); break;
          case 1: case 2: if (at < b.size()) b[at] = "\"'\\[]{}=.,#\n\r\t _-+eE0tfuUx\0"[draw(28)]; fault("stored-syntax-changed"); break;
          case 3: b.insert(at, 1, "\"'\\[]{}=.,#\n\r\t _-+eE0tfuUx\0"[draw(28)]); fault("stored-syntax-added"); break;
          case 4: b.erase(at, 1 + draw(3)); fault("stored-bytes-lost"); break;
          case 5: b.erase(at, draw(60)); fault("stored-bytes-lost"); break;
          case 6: { const uint64_t from = draw(b.size() + 1); b.insert(at, b.substr(from, draw(80))); fault("stored-bytes-duplicated"); break; }
          case 7: b.resize((size_t)at); fault("stored-truncation"); break;
          case 8: if (at < b.size()) b[at] = (char)(0x80 + draw(128)); fault("stored-byte-changed"); break;
          case 9: b.insert(at, 1 + draw(4), (char)draw(256)); fault("stored-byte-changed"); break;
          case 10: {
            static const char* bits[] = {"\"\"\"", "'''", "[[", "]]", "= ", "a = ", "\\u", "\\U0011", "\\uD800", "1__0", "_", "0x1F", "1e", "1.", "+", "-", "inf", "nan", "1979-05-27", "[", "{", "{}", "[]", "[,]", "{,}", "[]\n", "[.]", "\"", "tru", "fals", "9223372036854775808", "-9223372036854775809", "1e999", "\r", "\\", "''", "\"\"", "0000", "[[]]", "a.b = 1\n", "= 1\n", "true", "[a", ".", "\xEF\xBB\xBF", "\xC3", "\xF0\x9F"};
            b.insert(at, bits[draw(47)]);
            fault("stored-bytes-inserted");
            break;
          }
          case 11: case 12: {  // a header or a key of the document once more
            std::string path;
            const V* at_v = &tree;
            const int depth = 1 + (int)draw(3);
            for (int d = 0; d < depth; ++d) {
              const bool known = at_v && at_v->k == V::Tab && !at_v->t.empty() && !flip(6);
              const size_t which = known ? (size_t)draw(at_v->t.size()) : 0;
              if (d) path += '.';
              if (known) { Writer kw; kw.key(at_v->t[which].first); path += kw.o; }
              else path += "zz";
              at_v = known ? &at_v->t[which].second : nullptr;
              while (at_v && at_v->k == V::Arr && !at_v->a.empty()) at_v = &at_v->a.back();
            }
            const uint64_t how = draw(8);
            std::string line = how < 3 ? "[" + path + "]" : how < 6 ? "[[" + path + "]]" : path + " = 1";
            const uint64_t ending = draw(6);
            if (ending == 0) line = line.substr(0, draw(line.size() + 1));
            if (ending == 1) line += " x";
            if (ending > 1) line += "\nzq = 1\n";
            size_t to = draw(3) ? b.size() : b.empty() ? 0 : b.find('\n', draw(b.size()));
            if (to == std::string::npos) to = b.size(); else if (to < b.size()) ++to;
            if (to == b.size() && !b.empty() && b.back() != '\n') line = "\n" + line;
            b.insert(to, line);
            fault("stored-header-conflict");
            break;
          }
          default: {  // a line moved or written twice
            size_t e = b.find('\n', at);
            size_t st = at == 0 ? std::string::npos : b.rfind('\n', at - 1);
            st = st == std::string::npos ? 0 : st + 1;
            e = e == std::string::npos ? b.size() : e + 1;
            const std::string line = b.substr(st, e - st);
            if (draw(2)) b.erase(st, e - st);
            size_t to = b.empty() ? 0 : b.find('\n', draw(b.size()));
            b.insert(to == std::string::npos ? b.size() : b.empty() ? 0 : to + 1, line);
            fault("stored-line-moved");
          }
        }
      }
    }
  }
  if (flip(25)) { Stream s = stream(); b.assign((size_t)draw(400), '\0'); for (auto& c : b) c = (char)s.next(); fault("stored-garbage"); }
  g_disk.put(kName, b);
  g_disk.clearPlan();
  g_disk.bufsize = draw(2) ? 0 : 1 + (int)draw(300);
  if (flip(3)) g_disk.rate[F_SHORT_READ] = 2;
  if (flip(6)) g_disk.read_error_at = (int64_t)draw(b.size() + 2);
  const toml::Parsed p = toml::parse(b);
  const uint64_t live = g_astats.live_bytes;
  g_alloc.max_single = 256 * b.size() + (1u << 17);
  const uint64_t s0 = steps();
  setStepBudget(1000000 + 20000 * (uint64_t)b.size());
  ev("document", b);
  Loaded l = loadSut(false);
  note("steps %lu for %zu bytes, peak %lu largest %lu", (unsigned long)(steps() - s0), b.size(), (unsigned long)g_astats.peak_bytes, (unsigned long)g_astats.largest_request);
  unused(live);
  nontrivial();
  if (isProp("C07")) {
    if (l.o.died) return;
    checkReleased("load");
    SIM_CHECK(g_disk.bytes(kName) == b, "load-modified-file", "a load modified the file");
    checkOthers(others);
    return;
  }
  SIM_CHECK(g_astats.largest_request <= 256 * b.size() + (1u << 17), "oversized-allocation",
            "loading a file of %zu bytes requested %lu bytes at once", b.size(), (unsigned long)g_astats.largest_request);
  SIM_CHECK(!l.o.died, "damaged-load-stopped-process", "loading a malformed file of %zu bytes stopped the process (%s)", b.size(), g_death);
  if (p.cut) probe("cut-inside-a-value");
  if (l.o.ok) {
    SIM_CHECK(!g_disk.faults_read, "damaged-load-ok-after-read-error", "success although a read failed");
    SIM_CHECK(!p.cut, "cut-document-accepted", "a document that ends inside a value was accepted: %s", p.why.c_str());
    if (p.valid) {
      probe("still-valid");
      const std::string e = toml::differ(l.v, p.v, "");
      SIM_CHECK(e.empty(), "damaged-load-values", "what was loaded is not the document: %s", e.c_str());
    } else probe("accepted-although-invalid");
  } else {
    probe("damaged-load-error");
    if (p.valid) probe("rejected-although-valid");
    SIM_CHECK(l.o.error != (int)il::Error::Undefined, "error-without-code", "the load reported an error without a code");
  }
  unused(cut_only);
}
}  // namespace

void world_toml() {
  if (isProp("C20")) {
    if (draw(2) == 0) {
      V tree = drawTree();
      bool readonly = false;
      saveTree(tree, draw(2) == 1, false, false, readonly, "", false);
    } else {
      V tree = drawTree();
      Writer w;
      g_disk.put(kName, w.document(tree));
      ioplan::drawStorage(false, (int64_t)g_disk.bytes(kName).size());
      loadSut(flip(6));
    }
    nontrivial();
    return;
  }
  if (isProp("C04")) runSave();
  else if (isProp("C05")) runLoad();
  else if (isProp("C06")) runDamaged();
  else {
    switch (draw(3)) {
      case 0: runSave(); break;
      case 1: runLoad(); break;
      default: runDamaged(); break;
    }
  }
}
