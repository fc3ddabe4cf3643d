// Trees (C36).
#include <il/Tree.h>

#include <map>
#include <set>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 3;
typedef il::int_t I;

template <typename T, I n>
struct World {
  typedef il::Tree<T, n> A;
  Holder<A> h[kSlots];
  // a node is known by its path from the root
  struct Node { int v = kUnknown; bool set = false; int level = 0; std::set<int> children; std::vector<int> path; };
  typedef std::vector<Node> Model;
  Model m[kSlots];
  static int maxLevel() { return n == 1 ? 12 : n == 2 ? 6 : n == 3 ? 4 : n <= 4 ? 3 : 2; }

  static Model fresh() { Model x(1); return x; }
  // the place of a node, walking down
  static il::spot_t go(const A& a, const Node& x) {
    il::spot_t s = a.root();
    for (int i : x.path) s = a.child(s, (I)i);
    return s;
  }
  bool check(int k, const char* what) {
    const Model& w = m[k];
    evt(what, k, w.size());
    int depth = 0;
    for (const Node& x : w) if (x.level > depth) depth = x.level;
    const int cnt = (int)w.size();
    const Node* nodes = w.data();
    int bad = -1, why = 0, got = 0;
    I dep = -1;
    if (!sut("reading", [&] {
          const A& a = *h[k];
          dep = a.depth();
          for (int t = 0; t < cnt && bad < 0; ++t) {
            const Node& x = nodes[t];
            bad = t;
            il::spot_t s = a.root(), up = s;
            for (int i : x.path) { up = s; s = a.child(s, (I)i); }
            why = 1;
            if (x.level && a.parent(s).index != up.index) return;
            why = 2;
            if (a.isEmpty(s) == x.set) return;
            why = 3;
            if (a.hasChild(s) == x.children.empty()) return;
            why = 4;
            for (I i = 0; i < n; ++i) if (a.hasChild(s, i) != (x.children.count((int)i) != 0)) return;
            why = 5;
            const il::SmallArray<I, n> c = a.children(s);
            if (c.size() != (I)x.children.size()) return;
            I j = 0;
            for (int i : x.children) if (c[j++] != (I)i) return;
            why = 6;
            got = El<T>::get(a.value(s));
            const int want = x.set ? x.v : El<T>::trivial ? kUnknown : El<T>::get(T{});
            if (want != kUnknown && got != want) return;
            bad = -1;
          }
        })) return false;
    static const char* w_[] = {"", "parent()", "isEmpty()", "hasChild()", "hasChild(i)", "children()", "value()"};
    SIM_CHECK(bad < 0, "wrong-node", "%s: %s is wrong at level %d of a tree of arity %ld (got %d)", what, w_[why], bad < 0 ? 0 : w[(size_t)bad].level, (long)n, got);
    SIM_CHECK(dep == (I)depth, "wrong-depth", "%s: a tree whose deepest node is at level %d has depth %ld", what, depth, (long)dep);
    for (const Node& x : w) evt("node", x.level, x.v, x.children.size());
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  bool resync(int k) { m[k] = fresh(); return sut("assignment", [&] { *h[k] = A{}; }); }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    const int j = (int)pick(kSlots);
    m[k] = fresh();
    switch (pick(4)) {
      case 0: return sut("Tree()", [&] { new (p) A{}; });
      case 1: {
        const I d = (I)pick((uint64_t)maxLevel() + 1);
        const bool ok = sut("Tree(depth)", [&] { new (p) A{d}; });
        if (!ok) return false;
        // what fits in the depth asked for needs no memory
        if (d > 0 && pick(2)) {
          const uint64_t c0 = g_astats.count;
          if (!addChild(k, 0, (int)pick((uint64_t)n))) return false;
          SIM_CHECK(g_astats.count == c0, "depth-not-reserved", "a child of the root of a tree of depth %ld needed memory", (long)d);
        }
        return true;
      }
      default:
        if (j == k || !h[j].live()) return sut("Tree()", [&] { new (p) A{}; });
        m[k] = m[j];
        if (pick(2)) return sut("copy construction", [&] { const A& s = *h[j]; new (p) A(s); });
        return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
    }
  }
  bool addChild(int k, size_t t, int i) {
    const Node x = m[k][t];
    A& a = *h[k];
    if (!sut("AddChild", [&] { a.AddChild(go(a, x), (I)i); })) return false;
    if (m[k][t].children.insert(i).second) {
      Node c;
      c.level = x.level + 1;
      c.path = x.path;
      c.path.push_back(i);
      m[k].push_back(c);
    }
    return true;
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    A& a = *h[k];
    Model& w = m[k];
    const size_t t = (size_t)pick(w.size());
    switch (pick(12)) {
      case 0: case 1: case 2: case 3:
        if (w[t].level >= maxLevel() || w.size() > 60) return true;
        return addChild(k, t, (int)pick((uint64_t)n));
      case 4: case 5: case 6: {
        const int v = value();
        w[t].v = v;
        w[t].set = true;
        return sut("Set", [&] { a.Set(go(a, w[t]), El<T>::make(v)); });
      }
      case 7: {  // the value of another node
        const size_t u = (size_t)pick(w.size());
        if (!w[u].set) return true;
        w[t].v = w[u].v;
        w[t].set = true;
        return sut("Set", [&] { a.Set(go(a, w[t]), a.value(go(a, w[u]))); });
      }
      case 8: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) w = m[j];
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; });
      }
      case 9: {
        const int j = (int)pick(kSlots);
        if (j == k || !h[j].live()) return true;
        w = m[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j);
      }
      case 10: return h[k].destroy("destruction") && (pick(2) || construct(k));
      default: return true;
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
template <typename T>
void goT() {
  evt("type", El<T>::name());
  switch (pick(5)) {
    case 0: { World<T, 1> w; w.run(); break; }
    case 1: { World<T, 2> w; w.run(); break; }
    case 2: { World<T, 3> w; w.run(); break; }
    case 3: { World<T, 4> w; w.run(); break; }
    default: { World<T, 8> w; w.run(); break; }
  }
}
}  // namespace

void world_tree() {
  drawMemory(refusals());
  switch (pick(3)) {
    case 0: goT<int>(); break;
    case 1: goT<Obj>(); break;
    default: goT<il::String>(); break;
  }
}
