// Hash maps (C15) and insertion-ordered maps (C16).
#include <il/Map.h>
#include <il/MapArray.h>

#include <algorithm>
#include <map>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 3;

// ---------------------------------------------------------------- keys
template <typename K> struct Key;
template <> struct Key<int> {
  static int make(int id) {
    switch (id % 4) {
      case 0: return id;
      case 1: return -id;
      case 2: return id << 20;
      default: return 2147483647 - id;
    }
  }
  static const char* name() { return "int"; }
};
template <> struct Key<long> {
  static long make(int id) { return id % 2 ? ((long)id << 40) : -(long)id * 4096; }
  static const char* name() { return "long"; }
};
// The text of a key: lengths on both sides of the inline capacity, any byte.
int keyText(int id, char* b) {
  static const int len[] = {0, 1, 2, 21, 22, 23, 24, 40, 5, 8};
  const int n = id == 0 ? 0 : len[id % 10] == 0 ? 3 : len[id % 10];
  for (int i = 0; i < n; ++i) b[i] = (char)(i + 1 == n ? 1 + id : i + 2 == n ? (id % 3 == 0 ? 0xE9 : 0x20 + id / 8) : 'k');
  if (n >= 5 && id % 4 == 1) b[n - 3] = 0;  // a text may hold the zero character
  b[n] = 0;
  return n;
}
template <> struct Key<il::String> {
  static il::String make(int id) {
    char b[64];
    const int n = keyText(id, b);
    return il::String{il::StringType::Byte, b, (il::int_t)n};
  }
  static const char* name() { return "String"; }
};
// A poor hash: nearly every key collides.
struct WeakInt : il::HashFunction<int> {
  static std::size_t hash(int val, int p) { return (static_cast<std::size_t>(val) % 3) & ((static_cast<std::size_t>(1) << p) - 1); }
};
struct WeakString : il::HashFunction<il::String> {
  static std::size_t hash(const il::String& s, int p) { return static_cast<std::size_t>(s.size() % 2) & ((static_cast<std::size_t>(1) << p) - 1); }
};
const int kMaxDomain = 100;

// ---------------------------------------------------------------- Map
struct MModel {
  std::map<int, int> m;
};

template <typename K, typename V, typename F>
struct World {
  typedef il::Map<K, V, F> A;
  Holder<A> h[kSlots];
  MModel m[kSlots];
  int domain;
  std::vector<std::pair<long, int>> ids;  // by key

  static bool trivV() { return El<V>::trivial; }
  template <typename N> static int idOf(const N& key, int, const std::pair<long, int>* b, const std::pair<long, int>* e) {
    const auto* p = std::lower_bound(b, e, std::make_pair((long)key, 0));
    return p != e && p->first == (long)key ? p->second : -1;
  }
  static int idOf(const il::String& key, int dom, const std::pair<long, int>*, const std::pair<long, int>*) {
    for (int d = 0; d < dom; ++d)
      if (same(key, d)) return d;
    return -1;
  }
  static long number(const il::String&) { return 0; }
  static long number(long x) { return x; }
  int keyPick() { return (int)pick((uint64_t)domain); }
  // a key that is in the map, if there is one
  int present(int k) {
    if (m[k].m.empty()) return -1;
    auto it = m[k].m.begin();
    std::advance(it, (long)pick(m[k].m.size()));
    return it->first;
  }
  int absent(int k) {
    const int s = keyPick();
    for (int i = 0; i < domain; ++i)
      if (!m[k].m.count((s + i) % domain)) return (s + i) % domain;
    return -1;
  }

  bool check(int k, const char* what) {
    A& a = *h[k];
    const std::map<int, int>& w = m[k].m;
    il::int_t n = -1, b = -1, t = -1;
    bool e = false;
    if (!sut("nbElements", [&] { const A& r = a; n = r.nbElements(); b = r.nbBuckets(); t = r.nbTombstones(); e = r.isEmpty(); })) return false;
    evt(what, k, n);
    SIM_CHECK(n == (il::int_t)w.size(), "wrong-count", "%s: nbElements is %ld instead of %zu", what, (long)n, w.size());
    SIM_CHECK(e == w.empty(), "wrong-count", "%s: isEmpty is %d with %zu elements", what, (int)e, w.size());
    SIM_CHECK(b >= n && t >= 0 && n + t <= b, "wrong-count", "%s: %ld buckets, %ld elements, %ld tombstones", what, (long)b, (long)n, (long)t);
    // iteration: each present key exactly once, with its value
    std::vector<int> seen((size_t)domain, 0), val((size_t)domain, kUnknown);
    int *ps = seen.data(), *pv = val.data();
    const int dom = domain;
    const std::pair<long, int>*ib = ids.data(), *ie = ib + ids.size();
    il::int_t steps = 0;
    bool bad = false;
    std::vector<int> want((size_t)domain, -3);  // -3: absent
    for (auto& p : w) want[(size_t)p.first] = p.second;
    const int* pw = want.data();
    if (!sut("iteration", [&] {
          const A& r = a;
          for (il::spot_t i = r.spotBegin(); i != r.spotEnd(); i = r.next(i)) {
            if (++steps > n) break;
            const K& key = r.key(i);
            const int id = idOf(key, dom, ib, ie);
            if (id < 0) { bad = true; break; }
            ++ps[id];
            if (pw[id] != kUnknown && pw[id] != -3) pv[id] = El<V>::get(r.value(i));
          }
        })) return false;
    SIM_CHECK(!bad, "wrong-key", "%s: iteration gives a key that was never inserted", what);
    SIM_CHECK(steps <= n, "wrong-iteration", "%s: iteration visits more than %ld elements", what, (long)n);
    for (int d = 0; d < dom; ++d) {
      SIM_CHECK(seen[(size_t)d] == (want[(size_t)d] == -3 ? 0 : 1), "wrong-iteration", "%s: iteration visits key %d %d time(s), present: %d", what, d,
                seen[(size_t)d], (int)(want[(size_t)d] != -3));
      if (want[(size_t)d] >= kDefault)
        SIM_CHECK(val[(size_t)d] == want[(size_t)d], "wrong-value", "%s: iteration gives %d instead of %d for key %d", what, val[(size_t)d], want[(size_t)d], d);
    }
    // searches
    const int probes = dom <= 16 ? dom : 8, from = dom <= 16 ? 0 : keyPick();
    for (int i = 0; i < probes; ++i)
      if (!look(k, (from + i) % dom, what)) return false;
    return true;
  }
  static bool same(int key, int d) { return key == Key<int>::make(d); }
  static bool same(long key, int d) { return key == Key<long>::make(d); }
  static bool same(const il::String& key, int d) {
    char b[64];
    const int n = keyText(d, b);
    return key.size() == n && std::memcmp(key.data(), b, (size_t)n) == 0;
  }
  bool look(int k, int d, const char* what) {
    const A& a = *h[k];
    const auto it = m[k].m.find(d);
    const bool want = it != m[k].m.end();
    const int wv = want ? it->second : 0;
    bool found = false, key = true;
    int v = kUnknown;
    if (!sut("search", [&] {
          il::spot_t i = a.search(Key<K>::make(d));
          found = a.found(i);
          if (found && want) {
            key = same(a.key(i), d);
            if (wv != kUnknown) v = El<V>::get(a.value(i));
          }
        })) return false;
    SIM_CHECK(found == want, found ? "phantom-key" : "lost-key", "%s: key %d is %s", what, d, found ? "found but absent" : "not found but present");
    SIM_CHECK(key, "wrong-key", "%s: the spot of key %d holds another key", what, d);
    if (want && wv != kUnknown) {
      SIM_CHECK(v == wv, "wrong-value", "%s: key %d has value %d instead of %d", what, d, v, wv);
      evt("v", d, wv);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  // A moved-from map is valid; what it holds is not specified: empty it.
  bool resync(int k) {
    m[k].m.clear();
    return sut("Clear", [&] { h[k]->Clear(); });
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    m[k].m.clear();
    switch (pick(7)) {
      case 0: return sut("Map()", [&] { new (p) A{}; });
      case 1: { const int n = (int)pick(20); return sut("Map(n)", [&] { new (p) A{(il::int_t)n}; }); }
      case 2: {
        const int x = value(), y = value(), z = value(), d = keyPick(), f = (d + 1) % domain, g = (d + 2) % domain;
        switch (pick(3)) {
          case 0: return sut("Map(list)", [&] { new (p) A{il::value, std::initializer_list<il::KeyValue<K, V>>{}}; });
          case 1: m[k].m[d] = x; return sut("Map(list)", [&] { new (p) A{il::value, {{Key<K>::make(d), El<V>::make(x)}}}; });
          default:
            m[k].m[d] = x; m[k].m[f] = y; m[k].m[g] = z;
            return sut("Map(list)", [&] { new (p) A{il::value, {{Key<K>::make(d), El<V>::make(x)}, {Key<K>::make(f), El<V>::make(y)}, {Key<K>::make(g), El<V>::make(z)}}}; });
        }
      }
      default: {
        int j = (int)pick(kSlots);
        if (j == k || !h[j].live()) return sut("Map()", [&] { new (p) A{}; });
        m[k].m = m[j].m;
        if (pick(2)) return sut("copy construction", [&] { new (p) A(*h[j]); });
        return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
      }
    }
  }
  bool set(int k, int d, int x) {
    A& a = *h[k];
    m[k].m[d] = x;
    switch (pick(4)) {
      case 0: return sut("Set(key, value)", [&] { const K key = Key<K>::make(d); const V v = El<V>::make(x); a.Set(key, v); });
      case 1: return sut("Set(key, value&&)", [&] { const K key = Key<K>::make(d); a.Set(key, El<V>::make(x)); });
      case 2: return sut("Set(key&&, value)", [&] { const V v = El<V>::make(x); a.Set(Key<K>::make(d), v); });
      default: return sut("Set(key&&, value&&)", [&] { a.Set(Key<K>::make(d), El<V>::make(x)); });
    }
  }
  bool setAt(int k, int d, int x) {
    A& a = *h[k];
    const bool was = m[k].m.count(d) != 0;
    m[k].m[d] = x;
    const int how = (int)pick(4);
    bool found = false, at = true;
    if (!sut("Set(key, value, spot)", [&] {
          K key = Key<K>::make(d);
          V v = El<V>::make(x);
          il::spot_t i = a.search(key);
          found = a.found(i);
          if (found) {
            a.Value(i) = v;
          } else {
            switch (how) {
              case 0: a.Set(key, v, il::io, i); break;
              case 1: a.Set(key, std::move(v), il::io, i); break;
              case 2: a.Set(std::move(key), v, il::io, i); break;
              default: a.Set(std::move(key), std::move(v), il::io, i); break;
            }
            at = a.found(i) && same(a.key(i), d) && El<V>::get(a.value(i)) == x;
          }
        })) return false;
    SIM_CHECK(found == was, found ? "phantom-key" : "lost-key", "key %d is %s before its insertion", d, found ? "found but absent" : "not found but present");
    SIM_CHECK(at, "wrong-spot", "the spot of the key %d just inserted does not give it back", d);
    return true;
  }
  // String keys given as C strings
  template <typename Q>
  typename std::enable_if<!std::is_same<Q, il::String>::value || !std::is_same<F, il::HashFunction<il::String>>::value, bool>::type cstring(int) { return true; }
  template <typename Q>
  typename std::enable_if<std::is_same<Q, il::String>::value && std::is_same<F, il::HashFunction<il::String>>::value, bool>::type cstring(int k) {
    A& a = *h[k];
    // the only key of the domain with this text: id 0
    const int x = value();
    switch (pick(6)) {
      case 0: m[k].m[0] = x; return sut("SetCString", [&] { const V v = El<V>::make(x); a.SetCString("", v); });
      case 1: m[k].m[0] = x; return sut("SetCString(&&)", [&] { a.SetCString("", El<V>::make(x)); });
      case 2: case 3: {
        const int d = keyPick();
        const auto it = m[k].m.find(d);
        const int wv = it == m[k].m.end() ? -3 : it->second;
        bool f = false;
        int v = kUnknown;
        const bool lit = pick(2) == 0;
        const bool longer = lit && pick(2) == 0;
        const int id = longer ? 7 : lit ? 8 : d;  // 40 bytes, 5 bytes
        const auto jt = m[k].m.find(id);
        const int want = jt == m[k].m.end() ? -3 : jt->second;
        (void)wv;
        if (!sut("searchCString", [&] {
              char b[64];
              const int n = keyText(id, b);
              char lb[6], ll[41];
              if (lit) std::memcpy(lb, b, 6);
              if (longer) std::memcpy(ll, b, 41);
              il::spot_t i = longer ? a.searchCString(ll) : lit ? a.searchCString(lb) : a.searchCString(b, (il::int_t)n);
              f = a.found(i);
              if (f && want >= kDefault) v = El<V>::get(a.value(i));
            })) return false;
        SIM_CHECK(f == (want != -3), f ? "phantom-key" : "lost-key", "searchCString: key %d is %s", id, f ? "found but absent" : "not found but present");
        SIM_CHECK(want < kDefault || v == want, "wrong-value", "searchCString: key %d has value %d instead of %d", id, v, want);
        return true;
      }
      case 4: {
        const auto jt = m[k].m.find(8);
        if (jt != m[k].m.end() && jt->second == kUnknown) return true;
        const int want = jt == m[k].m.end() ? x : jt->second;
        int v = 0;
        if (!sut("valueForCString", [&] {
              char b[64], lb[6];
              keyText(8, b);
              std::memcpy(lb, b, 6);
              const V def = El<V>::make(x);
              v = El<V>::get(a.valueForCString(lb, def));
            })) return false;
        SIM_CHECK(v == want, "wrong-value", "valueForCString gives %d instead of %d", v, want);
        return true;
      }
      default: {
        if (m[k].m.count(8)) return true;
        m[k].m[8] = x;
        bool at = true;
        if (!sut("SetCString(spot)", [&] {
              char b[64], lb[6];
              keyText(8, b);
              std::memcpy(lb, b, 6);
              const V v = El<V>::make(x);
              il::spot_t i = a.searchCString(lb);
              a.SetCString(lb, v, il::io, i);
              at = a.found(i) && same(a.key(i), 8);
            })) return false;
        SIM_CHECK(at, "wrong-spot", "the spot of the key just inserted does not give it back");
        return true;
      }
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    A& a = *h[k];
    std::map<int, int>& w = m[k].m;
    switch (pick(26)) {
      case 0: case 1: case 2: case 3: { const int x = value(); return set(k, keyPick(), x); }
      case 4: case 5: { const int x = value(), d = absent(k); return d < 0 || set(k, d, x); }
      case 6: case 7: { const int x = value(); return setAt(k, keyPick(), x); }
      case 8: case 9: case 10: case 11: {
        const int d = present(k);
        if (d < 0) return true;
        w.erase(d);
        bool f = false;
        if (!sut("erase", [&] { il::spot_t i = a.search(Key<K>::make(d)); f = a.found(i); if (f) a.erase(i); })) return false;
        SIM_CHECK(f, "lost-key", "key %d is not found but present", d);
        return true;
      }
      case 12: {  // insert and erase many times
        const int c = 1 + (int)pick(20);
        for (int t = 0; t < c; ++t) {
          const int d = absent(k);
          if (d < 0) return true;
          if (!sut("Set", [&] { a.Set(Key<K>::make(d), El<V>::make(3)); })) return false;
          w[d] = 3;
          if (!look(k, d, "churn")) return false;
          if (!sut("erase", [&] { a.erase(a.search(Key<K>::make(d))); })) return false;
          w.erase(d);
          if (!look(k, d, "churn")) return false;
        }
        return true;
      }
      case 13: {
        if (pick(2)) { w.clear(); return sut("Clear", [&] { a.Clear(); }); }
        const int r = (int)pick(pick(3) ? 12 : 60);
        il::int_t b = 0;
        if (!sut("Reserve", [&] { a.Reserve((il::int_t)r); b = a.nbBuckets(); })) return false;
        SIM_CHECK(b >= r, "reserve-too-small", "Reserve(%d) left %ld buckets", r, (long)b);
        return true;
      }
      case 14: {
        if (t_ctx.large && pick(2)) {  // many keys at once
          const int from = keyPick(), c = (int)pick(400), x = value();
          const bool in = pick(3) != 0;
          for (int i = 0; i < c; ++i) {
            const int d = (from + i) % domain;
            const bool there = w.count(d) != 0;
            if (in) w[d] = x;
            else w.erase(d);
            if (!sut(in ? "Set" : "Erase", [&] {
                  if (in) a.Set(Key<K>::make(d), El<V>::make(x));
                  else if (there) a.erase(a.search(Key<K>::make(d)));
                })) return false;
          }
          return true;
        }
        return sut("Rehash", [&] { a.Rehash(); });
      }
      case 15: {  // values and keys that are in the map
        const int d = present(k), e = pick(2) ? absent(k) : keyPick();
        if (d < 0 || e < 0) return true;
        const int x = w[d];
        if (x == kUnknown) return true;
        switch (pick(3)) {
          case 0:
            w[e] = x;
            return sut("Set(key, own value)", [&] { const V& v = a.value(a.search(Key<K>::make(d))); a.Set(Key<K>::make(e), v); });
          case 1:
            w[e] = x;
            if (e != d && !trivV()) w[d] = kUnknown;
            if (e == d) return true;
            return sut("Set(key, moved own value)", [&] { V& v = a.Value(a.search(Key<K>::make(d))); a.Set(Key<K>::make(e), std::move(v)); });
          default: {
            const int y = value();
            w[d] = y;
            return sut("Set(own key, value)", [&] { const K& key = a.key(a.search(Key<K>::make(d))); a.Set(key, El<V>::make(y)); });
          }
        }
      }
      case 16: case 17: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        w = std::map<int, int>(m[j].m);
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; });
      }
      case 18: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) { return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k); }
        w = m[j].m;
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j);
      }
      case 19: return h[k].destroy("destruction");
      case 20: {
        const int d = keyPick(), x = value();
        const auto it = w.find(d);
        if (it != w.end() && it->second == kUnknown) return true;
        int v = kUnknown, u = kUnknown;
        const int want = it == w.end() ? x : it->second;
        if (!sut("valueForKey", [&] {
              const A& r = a;
              const V def = El<V>::make(x);
              const K key = Key<K>::make(d);
              v = El<V>::get(r.valueForKey(key, def));
              if (it != w.end()) { const V& y = r.valueForKey(key); u = El<V>::get(y); }
            })) return false;
        SIM_CHECK(v == want, "wrong-value", "valueForKey gives %d instead of %d", v, want);
        SIM_CHECK(it == w.end() || u == want, "wrong-value", "valueForKey gives %d instead of %d", u, want);
        return true;
      }
      case 21: {
        const int d = present(k), x = value();
        if (d < 0) return true;
        w[d] = x;
        return sut("Value", [&] { a.Value(a.search(Key<K>::make(d))) = El<V>::make(x); });
      }
      case 22: case 23: return cstring<K>(k);
      case 24: {  // rewrite every value while iterating
        const int x = value();
        for (auto& p : w) p.second = x;
        return sut("iteration", [&] { for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) a.Value(i) = El<V>::make(x); });
      }
      default: return h[k].destroy("destruction") && construct(k);
    }
  }
  void run() {
    domain = pick(3) == 0 ? kMaxDomain : pick(2) ? 12 : 30;
    if (std::is_same<K, il::String>::value) {
      if (domain > 90) domain = 90;
    } else {
      if (t_ctx.large) domain = 700;
      for (int d = 0; d < domain; ++d) ids.push_back(std::make_pair(number(Key<K>::make(d)), d));
      std::sort(ids.begin(), ids.end());
    }
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};

// ---------------------------------------------------------------- MapArray
template <typename K, typename V, typename F>
struct OWorld {
  typedef il::MapArray<K, V, F> A;
  typedef std::vector<std::pair<int, int>> M;
  Holder<A> h[kSlots];
  M m[kSlots];
  int domain;

  int keyPick() { return (int)pick((uint64_t)domain); }
  static int at(const M& w, int d) {
    for (size_t i = 0; i < w.size(); ++i)
      if (w[i].first == d) return (int)i;
    return -1;
  }
  int absent(int k) {
    const int s = keyPick();
    for (int i = 0; i < domain; ++i)
      if (at(m[k], (s + i) % domain) < 0) return (s + i) % domain;
    return -1;
  }
  static void put(M& w, int d, int x) {
    const int i = at(w, d);
    if (i >= 0) w[(size_t)i].second = x;
    else w.push_back({d, x});
  }
  static bool same(const K& key, int d) { return World<K, V, F>::same(key, d); }

  bool check(int k, const char* what) {
    const A& a = *h[k];
    const M& w = m[k];
    il::int_t n = -1, e = -1, c = -1;
    if (!sut("size", [&] { n = a.size(); e = a.nbElements(); c = a.capacity(); })) return false;
    evt(what, k, n);
    SIM_CHECK(n == (il::int_t)w.size() && e == n && c >= n, "wrong-count", "%s: size %ld, nbElements %ld, capacity %ld with %zu keys", what, (long)n, (long)e, (long)c, w.size());
    std::vector<int> val((size_t)n, kUnknown);
    int* pv = val.data();
    il::int_t steps = 0, bad = -1;
    const std::pair<int, int>* pw = w.data();
    if (!sut("iteration", [&] {
          for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) {
            if (steps >= n) { ++steps; break; }
            if (!same(a.key(i), pw[steps].first)) { bad = steps; break; }
            if (pw[steps].second != kUnknown) pv[steps] = El<V>::get(a.value(i));
            ++steps;
          }
        })) return false;
    SIM_CHECK(bad < 0, "wrong-order", "%s: key %ld of the iteration is not key %d", what, (long)bad, pw[bad < 0 ? 0 : bad].first);
    SIM_CHECK(steps == n, "wrong-iteration", "%s: iteration visits %ld elements instead of %ld", what, (long)steps, (long)n);
    for (il::int_t i = 0; i < n; ++i)
      if (pw[i].second != kUnknown) {
        SIM_CHECK(pv[i] == pw[i].second, "wrong-value", "%s: the value of key %d is %d instead of %d", what, pw[i].first, pv[i], pw[i].second);
        evt("v", pw[i].first, pv[i]);
      }
    const int probes = domain <= 16 ? domain : 8, from = domain <= 16 ? 0 : keyPick();
    for (int i = 0; i < probes; ++i)
      if (!look(k, (from + i) % domain, what)) return false;
    return true;
  }
  bool look(int k, int d, const char* what) {
    const A& a = *h[k];
    const int want = at(m[k], d);
    bool found = false, key = true;
    int v = kUnknown;
    il::int_t index = -1;
    const int wv = want >= 0 ? m[k][(size_t)want].second : kUnknown;
    if (!sut("search", [&] {
          il::spot_t i = a.search(Key<K>::make(d));
          found = a.found(i);
          index = i.index;
          if (found && want >= 0) {
            key = same(a.key(i), d);
            if (wv != kUnknown) v = El<V>::get(a.value(i));
          }
        })) return false;
    SIM_CHECK(found == (want >= 0), found ? "phantom-key" : "lost-key", "%s: key %d is %s", what, d, found ? "found but absent" : "not found but present");
    SIM_CHECK(key, "wrong-key", "%s: the spot of key %d holds another key", what, d);
    SIM_CHECK(want < 0 || wv == kUnknown || v == wv, "wrong-value", "%s: key %d has value %d instead of %d", what, d, v, wv);
    SIM_CHECK(want < 0 || index == want, "wrong-order", "%s: key %d is at position %ld instead of %d", what, d, (long)index, want);
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  // What a moved-from map holds is not specified: give it a value again.
  bool resync(int k) {
    m[k].clear();
    return sut("assignment", [&] { *h[k] = A{}; });
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    M& w = m[k];
    w.clear();
    switch (pick(6)) {
      case 0: return sut("MapArray()", [&] { new (p) A{}; });
      case 1: { const int n = (int)pick(20); return sut("MapArray(n)", [&] { new (p) A{(il::int_t)n}; }); }
      case 2: {
        const int x = value(), y = value(), d = keyPick(), f = (d + 1) % domain;
        if (pick(3) == 0) return sut("MapArray(list)", [&] { new (p) A{il::value, std::initializer_list<il::KeyValue<K, V>>{}}; });
        w = M{{d, x}, {f, y}};
        return sut("MapArray(list)", [&] { new (p) A{il::value, {{Key<K>::make(d), El<V>::make(x)}, {Key<K>::make(f), El<V>::make(y)}}}; });
      }
      default: {
        int j = (int)pick(kSlots);
        if (j == k || !h[j].live()) return sut("MapArray()", [&] { new (p) A{}; });
        w = m[j];
        if (pick(2)) return sut("copy construction", [&] { new (p) A(*h[j]); });
        return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
      }
    }
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    A& a = *h[k];
    M& w = m[k];
    const int x = value();
    switch (pick(18)) {
      case 0: case 1: case 2: case 3: case 4: {
        const int d = pick(2) ? keyPick() : absent(k);
        if (d < 0) return true;
        put(w, d, x);
        switch (pick(4)) {
          case 0: return sut("Set(key, value)", [&] { const K key = Key<K>::make(d); const V v = El<V>::make(x); a.Set(key, v); });
          case 1: return sut("Set(key, value&&)", [&] { const K key = Key<K>::make(d); a.Set(key, El<V>::make(x)); });
          case 2: return sut("Set(key&&, value)", [&] { const V v = El<V>::make(x); a.Set(Key<K>::make(d), v); });
          default: return sut("Set(key&&, value&&)", [&] { a.Set(Key<K>::make(d), El<V>::make(x)); });
        }
      }
      case 5: case 6: case 7: {
        const int d = keyPick();
        const bool was = at(w, d) >= 0;
        put(w, d, x);
        const int how = (int)pick(4);
        bool found = false, ok = true;
        if (!sut("Set(key, value, spot)", [&] {
              K key = Key<K>::make(d);
              V v = El<V>::make(x);
              il::spot_t i = a.search(key);
              found = a.found(i);
              if (found) {
                a.Value(i) = v;
              } else {
                switch (how) {
                  case 0: a.Set(key, v, il::io, i); break;
                  case 1: a.Set(key, std::move(v), il::io, i); break;
                  case 2: a.Set(std::move(key), v, il::io, i); break;
                  default: a.Set(std::move(key), std::move(v), il::io, i); break;
                }
                ok = a.found(i) && same(a.key(i), d) && El<V>::get(a.value(i)) == x;
              }
            })) return false;
        SIM_CHECK(found == was, found ? "phantom-key" : "lost-key", "key %d is %s before its insertion", d, found ? "found but absent" : "not found but present");
        SIM_CHECK(ok, "wrong-spot", "the spot of the key %d just inserted does not give it back", d);
        return true;
      }
      case 8: case 9: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        w = M(m[j]);
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; });
      }
      case 10: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j == k) return sut("self move assignment", [&] { A& s = a; a = std::move(s); }) && resync(k);
        w = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j);
      }
      case 11: return h[k].destroy("destruction");
      case 12: case 13: {  // own keys and values
        if (w.empty()) return true;
        const int i = (int)pick(w.size()), d = w[(size_t)i].first, e = pick(2) ? absent(k) : keyPick(), y = w[(size_t)i].second;
        if (e < 0 || y == kUnknown) return true;
        if (pick(2)) {
          put(w, e, y);
          return sut("Set(key, own value)", [&] { const V& v = a.value(a.search(Key<K>::make(d))); a.Set(Key<K>::make(e), v); });
        }
        put(w, d, x);
        return sut("Set(own key, value)", [&] { const K& key = a.key(a.search(Key<K>::make(d))); a.Set(key, El<V>::make(x)); });
      }
      case 14: {
        for (auto& p : w) p.second = x;
        return sut("iteration", [&] { for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) a.Value(i) = El<V>::make(x); });
      }
      case 15: return literal<K>(k);
      case 16: {
        const int c = 1 + (int)pick(10);
        for (int t = 0; t < c; ++t) {
          const int d = absent(k);
          if (d < 0) return true;
          put(w, d, x);
          if (!sut("Set", [&] { a.Set(Key<K>::make(d), El<V>::make(x)); })) return false;
        }
        return true;
      }
      default: return h[k].destroy("destruction") && construct(k);
    }
  }
  template <typename Q>
  typename std::enable_if<!std::is_same<Q, il::String>::value || !std::is_same<F, il::HashFunction<il::String>>::value, bool>::type literal(int) { return true; }
  template <typename Q>
  typename std::enable_if<std::is_same<Q, il::String>::value && std::is_same<F, il::HashFunction<il::String>>::value, bool>::type literal(int k) {
    static const int ids[] = {8, 7, 6};  // of 5, 40 and 24 bytes
    const int way = (int)pick(3), id = ids[way], place = at(m[k], id);
    const bool want = place >= 0;
    const int wv = want ? m[k][(size_t)place].second : kUnknown;
    bool f = false, key = true;
    int v = kUnknown;
    if (!sut("searchCString", [&] {
          char b[64], l5[6], l40[41], l24[25];
          keyText(id, b);
          std::memcpy(l5, b, 6);
          std::memcpy(l40, b, 41);
          std::memcpy(l24, b, 25);
          const il::spot_t i = way == 0 ? h[k]->searchCString(l5) : way == 1 ? h[k]->searchCString(l40) : h[k]->searchCString(l24);
          f = h[k]->found(i);
          if (f && want) {
            key = same(h[k]->key(i), id);
            if (wv != kUnknown) v = El<V>::get(h[k]->value(i));
          }
        })) return false;
    SIM_CHECK(f == want, f ? "phantom-key" : "lost-key", "searchCString: key %d is %s", id, f ? "found but absent" : "not found but present");
    SIM_CHECK(key && (!want || v == wv), "wrong-value", "searchCString: key %d has value %d instead of %d", id, v, wv);
    return true;
  }
  void run() {
    domain = pick(3) == 0 ? 90 : pick(2) ? 12 : 30;
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
template <template <typename, typename, typename> class W, typename K, typename V, typename F>
void go() {
  evt("types", Key<K>::name(), El<V>::name());
  W<K, V, F> w;
  w.run();
}
template <template <typename, typename, typename> class W>
void any() {
  drawMemory(refusals());
  switch (pick(7)) {
    case 0: go<W, int, int, il::HashFunction<int>>(); break;
    case 1: go<W, int, Obj, il::HashFunction<int>>(); break;
    case 2: go<W, int, il::String, WeakInt>(); break;
    case 3: go<W, long, int, il::HashFunction<long>>(); break;
    case 4: go<W, il::String, int, il::HashFunction<il::String>>(); break;
    case 5: go<W, il::String, Obj, il::HashFunction<il::String>>(); break;
    default: go<W, il::String, il::String, WeakString>(); break;
  }
}
}  // namespace

void world_map() { any<World>(); }
void world_maparray() { any<OWorld>(); }
