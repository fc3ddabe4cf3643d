// Information records (C19) and statuses (C10).
#include <il/Info.h>
#include <il/Status.h>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 3;
const int kNames = 40;
// Names sharing prefixes, one byte apart, of all lengths, with bytes above 127.
int nameText(int id, char* b) {
  if (id == 0) { b[0] = 0; return 0; }
  if (id >= kNames) return std::sprintf(b, "%s", id == kNames ? "source_file" : "source_line");
  int n = 0;
  if (id < 12) {  // a, aa, aaa, ...
    while (n < id) b[n++] = 'a';
  } else if (id < 24) {  // key, keyx, keyxx: with another end
    std::memcpy(b, "key", 3);
    n = 3;
    for (int i = 12; i < id; i += 3) b[n++] = (char)('x' + id % 3);
  } else if (id < 32) {  // UTF-8
    b[n++] = (char)0xC3;
    b[n++] = (char)(0xA0 + id);
    if (id % 2) b[n++] = 'e';
  } else {
    const int len = 30 + 7 * (id - 32);
    while (n < len) b[n++] = (char)('a' + n % 26);
    b[n - 1] = (char)('A' + id - 32);
  }
  b[n] = 0;
  return n;
}
// kinds: 0 integer, 1 double, 2 text
struct Item {
  int name = 0, kind = 0;
  long i = 0;
  double d = 0;
  std::string s;
};
Item drawItem() {
  Item x;
  x.name = (int)pick(kNames);
  x.kind = (int)pick(3);
  static const long li[] = {0, 1, -1, 255, 256, 2147483647L, -2147483648L, 9223372036854775807L, -9223372036854775807L - 1, 0x0102030405060708L};
  static const double ld[] = {0.0, -0.0, 1.5, -1e300, 5e-324, 1e308 * 10};
  x.i = pick(3) ? li[pick(10)] : (long)pick(1000) - 500;
  x.d = pick(3) ? ld[pick(6)] : (double)pick(1000) / 8;
  const int n = scaled((int)pick(pick(4) ? 12 : 200), 70000);
  for (int i = 0; i < n; ++i) x.s += (char)(1 + (i * 37 + x.i + n) % 255 % 255);
  for (char& c : x.s) if (!c) c = 'z';
  return x;
}
typedef std::vector<Item> Rec;
const Item* find(const Rec& r, int name) {
  for (const Item& x : r) if (x.name == name) return &x;
  return nullptr;
}
bool sameDouble(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }

struct InfoWorld {
  Holder<il::Info> h[kSlots];
  Rec m[kSlots];

  bool look(int k, int id, const char* what) {
    const il::Info& a = *h[k];
    const Item* w = find(m[k], id);
    bool found = false, kind = true, same = true;
    char name[128];
    nameText(id, name);
    if (!sut("search", [&] {
          const il::int_t i = a.search(name);
          found = a.found(i);
          if (!found || !w) return;
          kind = a.isInteger(i) == (w->kind == 0) && a.isDouble(i) == (w->kind == 1) && a.isString(i) == (w->kind == 2);
          if (!kind) return;
          if (w->kind == 0) same = a.toInteger(i) == (il::int_t)w->i && a.toInteger(name) == (il::int_t)w->i;
          else if (w->kind == 1) same = sameDouble(a.toDouble(i), w->d) && sameDouble(a.toDouble(name), w->d);
          else same = std::strcmp(a.asCString(i), w->s.c_str()) == 0 && std::strcmp(a.asCString(name), w->s.c_str()) == 0;
        })) return false;
    SIM_CHECK(found == (w != nullptr), found ? "phantom-name" : "lost-name", "%s: name %d is %s", what, id, found ? "found but was never stored" : "not found but was stored");
    SIM_CHECK(kind, "wrong-kind", "%s: the value of name %d has another kind", what, id);
    SIM_CHECK(same, "wrong-value", "%s: the value of name %d is not the one stored", what, id);
    return true;
  }
  bool check(int k, const char* what) {
    bool e = false;
    if (!sut("isEmpty", [&] { e = h[k]->isEmpty(); })) return false;
    SIM_CHECK(e == m[k].empty(), "wrong-count", "%s: isEmpty is %d with %zu values", what, (int)e, m[k].size());
    evt(what, k, m[k].size());
    for (const Item& x : m[k])
      if (!look(k, x.name, what)) return false;
    for (int i = 0; i < 6; ++i)
      if (!look(k, (int)pick(kNames), what)) return false;
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  bool resync(int k) {
    m[k].clear();
    return sut("clear", [&] { h[k]->clear(); });
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    const int j = (int)pick(kSlots);
    m[k].clear();
    if (j == k || !h[j].live() || pick(3) == 0) return sut("Info()", [&] { new (p) il::Info{}; });
    m[k] = m[j];
    if (pick(2)) return sut("copy construction", [&] { new (p) il::Info(*h[j]); });
    return sut("move construction", [&] { new (p) il::Info(std::move(*h[j])); }) && resync(j);
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    il::Info& a = *h[k];
    switch (pick(12)) {
      case 0: case 1: case 2: case 3: case 4: {
        if (m[k].size() > 25) return true;
        const Item x = drawItem();
        m[k].push_back(x);
        char name[128];
        nameText(x.name, name);
        return sut("Set", [&] {
          if (x.kind == 0 && x.i == (int)x.i && x.name % 2) a.Set(name, (int)x.i);
          else if (x.kind == 0) a.Set(name, (il::int_t)x.i);
          else if (x.kind == 1) a.Set(name, x.d);
          else a.Set(name, x.s.c_str());
        });
      }
      case 5: {  // a text of its own
        for (size_t t = 0; t < m[k].size(); ++t)
          if (m[k][t].kind == 2 && find(m[k], m[k][t].name) == &m[k][t] && m[k].size() < 25) {
            Item x = m[k][t];
            char name[128], old[128];
            nameText(x.name, old);
            x.name = (int)pick(kNames);
            nameText(x.name, name);
            m[k].push_back(x);
            return sut("Set of its own text", [&] { a.Set(name, a.asCString(old)); });
          }
        return true;
      }
      case 6: m[k].clear(); return sut("clear", [&] { a.clear(); });
      case 7: case 8: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        m[k] = Rec(m[j]);
        return sut("copy assignment", [&] { il::Info& d = a; const il::Info& s = *h[j]; d = s; });
      }
      case 9: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { il::Info& s = a; a = std::move(s); }) && resync(k);
        m[k] = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j);
      }
      default: return h[k].destroy("destruction") && (pick(2) || construct(k));
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};

// ---------------------------------------------------------------- statuses
const il::Error kErrors[] = {il::Error::FilesystemFileNotFound, il::Error::ParseKey, il::Error::Undefined, il::Error::MatrixSingular, il::Error::BinaryFileWrongRank, il::Error::OverflowInt};
struct SModel {
  bool pending = false, ok = true;
  bool known = true;  // pending is known
  int error = -1;     // index in kErrors; -1: not specified
  Rec info;
};
struct StatusWorld {
  typedef il::Status A;
  Holder<A> h[kSlots];
  SModel m[kSlots];

  // f would lose the report of slot k, or misuse it: it must stop the process
  // when debug checks are on.  true: the run goes on.
  template <typename F>
  bool mustStop(const char* what, F&& f) {
    if (!g_debug_checks) return true;
    const uint64_t failed = g_astats.failed;
    const End e = guarded(f);
    if (g_astats.failed != failed) { t_ctx.over = true; return false; }
    SIM_CHECK(e == End::Died, "lost-report", "%s of a status that was set and never consulted went on", what);
    evt("stopped", what);
    probe("stopped-on-lost-report");
    t_ctx.over = true;  // the process is gone
    return false;
  }
  // Makes sure that we know whether the status waits for its consultation.
  bool settle(int k) {
    if (m[k].known) return true;
    m[k].known = true;
    m[k].pending = false;
    if (!g_debug_checks) return true;
    A& a = *h[k];
    bool o = m[k].ok;
    guarded([&] { o = a.Ok(); });
    SIM_CHECK(blank[k] || o == m[k].ok, "wrong-outcome", "Ok() after a move gives %d instead of %d", (int)o, (int)m[k].ok);
    return true;
  }
  bool details(int k, const char* what) {  // consulted
    A& a = *h[k];
    const SModel& w = m[k];
    if (w.ok || w.pending) return true;
    il::Error e = il::Error::Unimplemented;
    if (!sut("error", [&] { e = a.error(); })) return false;
    SIM_CHECK(w.error < 0 || e == kErrors[w.error], "wrong-error", "%s: the error code is %d instead of %d", what, (int)e, w.error < 0 ? -1 : (int)kErrors[w.error]);
    return info(k, what);
  }
  bool info(int k, const char* what) {
    const A& a = *h[k];
    const SModel& w = m[k];
    if (w.ok) return true;
    for (const Item& x : w.info) {
      const Item* y = find(w.info, x.name);
      bool same = true;
      char name[128];
      nameText(y->name, name);
      if (!sut("reading the information", [&] {
            if (y->kind == 0) same = a.toInteger(name) == (il::int_t)y->i;
            else if (y->kind == 1) same = sameDouble(a.toDouble(name), y->d);
            else same = std::strcmp(a.asCString(name), y->s.c_str()) == 0;
          })) return false;
      SIM_CHECK(same, "wrong-information", "%s: the information %d is not the one attached", what, y->name);
    }
    evt("info", w.info.size());
    return true;
  }
  bool consult(int k) {
    A& a = *h[k];
    SModel& w = m[k];
    w.pending = false;
    switch (pick(4)) {
      case 0: case 1: {
        bool o = false;
        if (!sut("Ok", [&] { o = a.Ok(); })) return false;
        SIM_CHECK(o == w.ok, "wrong-outcome", "Ok() is %d instead of %d", (int)o, (int)w.ok);
        evt("ok", (int)o);
        return details(k, "Ok");
      }
      case 2: return sut("IgnoreError", [&] { a.IgnoreError(); }) && details(k, "IgnoreError");
      default: {
        if (w.ok) return sut("AbortOnError", [&] { a.AbortOnError(); });
        w.pending = true;
        if (pick(4)) return consult(k);
        const uint64_t failed = g_astats.failed;
        const End e = guarded([&] { a.AbortOnError(); });
        if (g_astats.failed != failed) { t_ctx.over = true; return false; }
        SIM_CHECK(e == End::Died, "lost-report", "AbortOnError of an error went on");
        evt("aborted");
        t_ctx.over = true;
        return false;
      }
    }
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    const int j = (int)pick(kSlots);
    if (j == k || !h[j].live() || pick(2)) { m[k] = SModel(); blank[k] = true; return sut("Status()", [&] { new (p) A{}; }); }
    m[k] = m[j];
    moved(k, j);
    return sut("move construction", [&] { new (p) A(std::move(*h[j])); });
  }
  void moved(int k, int j) {
    m[k].known = m[j].pending;  // whether a consulted status must be consulted again where it was moved to is not specified
    m[k].pending = m[j].pending;
    m[j].pending = false;
    m[j].ok = true;  // what it reports is not specified
    m[j].error = -1;
    m[j].info.clear();
    blank[k] = blank[j];
    blank[j] = true;
  }
  bool blank[kSlots] = {false, false, false};  // moved-from: nothing to consult
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    if (!settle(k)) return false;
    A& a = *h[k];
    SModel& w = m[k];
    switch (pick(14)) {
      case 0: case 1: {
        const int e = (int)pick(6);
        if (w.pending) return one(6) ? mustStop("SetError over the report", [&] { a.SetError(kErrors[e]); }) : true;
        w.pending = true;
        w.ok = false;
        w.error = e;
        w.info.clear();
        blank[k] = false;
        return sut("SetError", [&] { a.SetError(kErrors[e]); });
      }
      case 2: {
        if (w.pending) return one(6) ? mustStop("SetOk over the report", [&] { a.SetOk(); }) : true;
        w.pending = true;
        w.ok = true;
        w.info.clear();
        blank[k] = false;
        return sut("SetOk", [&] { a.SetOk(); });
      }
      case 3: case 4: case 5: {
        if (!w.pending || w.ok || w.info.size() > 12) return true;
        const Item x = drawItem();
        if (x.kind == 2 && x.name % 5 == 1) {
          Item f, l;
          f.kind = 2; f.name = kNames; f.s = x.s;
          l.kind = 0; l.name = kNames + 1; l.i = x.i;
          w.info.push_back(f);
          w.info.push_back(l);
          return sut("setSource", [&] { a.setSource(x.s.c_str(), (il::int_t)x.i); });
        }
        w.info.push_back(x);
        char name[128];
        nameText(x.name, name);
        return sut("SetInfo", [&] {
          if (x.kind == 0 && x.i == (int)x.i && x.name % 2) a.SetInfo(name, (int)x.i);
          else if (x.kind == 0) a.SetInfo(name, (il::int_t)x.i);
          else if (x.kind == 1) a.SetInfo(name, x.d);
          else a.SetInfo(name, x.s.c_str());
        });
      }
      case 6: case 7: case 8: return !w.pending || consult(k);
      case 9: {
        if (w.pending || blank[k]) return true;
        w.pending = true;
        return sut("Rearm", [&] { a.Rearm(); });
      }
      case 10: case 11: {
        const int j = (int)pick(kSlots);
        if (j == k || !h[j].live() || !settle(j)) return true;
        if (w.pending) return one(6) ? mustStop("assignment over the report", [&] { a = std::move(*h[j]); }) : true;
        w = m[j];
        moved(k, j);
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && info(k, "move assignment");
      }
      case 12: {
        if (!w.pending) return info(k, "later");
        return one(4) ? mustStop("destruction", [&] { a.~A(); }) : true;
      }
      default:
        if (w.pending && !consult(k)) return false;
        return h[k].destroy("destruction") && (pick(2) || construct(k));
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      for (int k = 0; k < kSlots && ok; ++k) if (h[k].live() && m[k].known) ok = m[k].pending ? info(k, "all") : details(k, "all");
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) {
      if (!h[k].live()) continue;
      ok = settle(k);
      if (ok && m[k].pending) ok = consult(k);
      if (ok) ok = h[k].destroy("destruction");
    }
    if (ok) checkAllReleased();
  }
};
}  // namespace

void world_info() {
  drawMemory(refusals());
  InfoWorld w;
  w.run();
}
void world_status() {
  drawMemory(refusals());
  StatusWorld w;
  w.run();
}
