// Double-ended queues (C24).
#include <il/Deque.h>

#include <deque>

#include "seq.h"

using namespace seq;

namespace {
const int kSlots = 3;

template <typename T>
struct World {
  typedef il::Deque<T> A;
  Holder<A> h[kSlots];
  std::deque<int> m[kSlots];
  int cap[kSlots];

  bool check(int k, const char* what) {
    const A& a = *h[k];
    const std::deque<int>& w = m[k];
    il::int_t n = -1, c = -1;
    int f = kUnknown, b = kUnknown, f2 = kUnknown, b2 = kUnknown;
    if (!sut("reading", [&] {
          n = a.size();
          c = a.capacity();
          if (!w.empty()) {
            if (w.front() != kUnknown) { f = El<T>::get(a.front()); f2 = El<T>::get((*h[k]).Front()); }
            if (w.back() != kUnknown) { b = El<T>::get(a.back()); b2 = El<T>::get((*h[k]).Back()); }
          }
        })) return false;
    SIM_CHECK(n == (il::int_t)w.size(), "wrong-count", "%s: size %ld instead of %zu", what, (long)n, w.size());
    SIM_CHECK(c >= cap[k], "wrong-count", "%s: capacity %ld instead of %d", what, (long)c, cap[k]);
    evt(what, k, n);
    if (!w.empty()) {
      SIM_CHECK(w.front() == kUnknown || (f == w.front() && f2 == f), "wrong-element", "%s: the front is %d instead of %d", what, f, w.front());
      SIM_CHECK(w.back() == kUnknown || (b == w.back() && b2 == b), "wrong-element", "%s: the back is %d instead of %d", what, b, w.back());
      evt("ends", f, b);
    }
    return true;
  }
  bool checkAll(const char* what) {
    for (int k = 0; k < kSlots; ++k)
      if (h[k].live() && !check(k, what)) return false;
    return true;
  }
  // A moved-from deque: only assigned or destroyed.
  bool resync(int k) {
    m[k].clear();
    cap[k] = 3;
    return sut("assignment", [&] { *h[k] = A{3}; });
  }
  bool construct(int k) {
    h[k].raw();
    void* p = h[k].p;
    m[k].clear();
    cap[k] = 0;
    const int n = scaled((int)pick(pick(3) ? 6 : 24), 400);
    const int j = (int)pick(kSlots);
    switch (pick(5)) {
      case 0: {
        if (!sut("Deque()", [&] { new (p) A{}; })) return false;
        if (pick(4) == 0) return true;
        cap[k] = n;
        return sut("Reserve", [&] { static_cast<A*>(p)->Reserve((il::int_t)n); });
      }
      case 1: case 2: cap[k] = n; return sut("Deque(n)", [&] { new (p) A{(il::int_t)n}; });
      default:
        if (j == k || !h[j].live()) { cap[k] = n; return sut("Deque(n)", [&] { new (p) A{(il::int_t)n}; }); }
        m[k] = m[j];
        cap[k] = cap[j];
        if (pick(2)) return sut("copy construction", [&] { new (p) A(*h[j]); });
        return sut("move construction", [&] { new (p) A(std::move(*h[j])); }) && resync(j);
    }
  }
  bool push(int k, bool front, int x, int how) {
    A& a = *h[k];
    if (front) m[k].push_front(x);
    else m[k].push_back(x);
    if (how == 0) return sut(front ? "PushFront" : "PushBack", [&] { const T v = El<T>::make(x); if (front) a.PushFront(v); else a.PushBack(v); });
    return sut(front ? "PushFront(emplace)" : "PushBack(emplace)", [&] { if (front) a.PushFront(il::emplace, El<T>::make(x)); else a.PushBack(il::emplace, El<T>::make(x)); });
  }
  bool pop(int k, bool front) {
    A& a = *h[k];
    if (front) m[k].pop_front();
    else m[k].pop_back();
    return sut(front ? "PopFront" : "PopBack", [&] { if (front) a.PopFront(); else a.PopBack(); });
  }
  bool step() {
    const int k = (int)pick(kSlots);
    if (!h[k].live()) return construct(k);
    A& a = *h[k];
    std::deque<int>& w = m[k];
    const bool full = (int)w.size() >= cap[k];
    const int x = value();
    switch (pick(16)) {
      case 0: case 1: case 2: case 3:
        if (full) {  // debug checks stop a push that has no room
          if (!g_debug_checks || !one(8)) return true;
          const bool front = pick(2) != 0, em = pick(2) != 0;
          const uint64_t failed = g_astats.failed;
          const End e = guarded([&] {
            if (em) { if (front) a.PushFront(il::emplace, El<T>::make(x)); else a.PushBack(il::emplace, El<T>::make(x)); }
            else { const T v = El<T>::make(x); if (front) a.PushFront(v); else a.PushBack(v); }
          });
          SIM_CHECK(e == End::Died || g_astats.failed != failed, "overfull", "%s went on although the queue was full", front ? "PushFront" : "PushBack");
          evt("stopped");
          probe("stopped-on-full-queue");
          t_ctx.over = true;
          return false;
        }
        return push(k, pick(2) != 0, x, (int)pick(2));
      case 4: case 5: case 6: return w.empty() || pop(k, pick(2) != 0);
      case 7: {  // to the brim, at drawn ends
        const int c = 1 + scaled((int)pick(24), 300), side = (int)pick(3);
        for (int i = 0; i < c && (int)w.size() < cap[k]; ++i)
          if (!push(k, side == 2 ? pick(2) != 0 : side != 0, (x + i) % kMaxV, i % 2) || !check(k, "filling")) return false;
        return true;
      }
      case 8: {  // to the bottom
        const int side = (int)pick(3);
        while (!w.empty())
          if (!pop(k, side == 2 ? pick(2) != 0 : side != 0) || !check(k, "emptying")) return false;
        return true;
      }
      case 9: {  // round and round
        const int c = 1 + (int)pick(40);
        const bool in = pick(2) != 0;
        if (full) return true;
        for (int i = 0; i < c; ++i) {
          if (!push(k, in, (x + i) % kMaxV, i % 2)) return false;
          if (!check(k, "turning")) return false;
          if (!pop(k, !in)) return false;
          if (!check(k, "turning")) return false;
        }
        return true;
      }
      case 10: {
        if (w.empty() || w.front() == kUnknown || w.back() == kUnknown) return true;
        if (!full && pick(2)) {  // its own element
          const bool from = pick(2) != 0, to = pick(2) != 0;
          const int y = from ? w.front() : w.back();
          if (to) w.push_front(y);
          else w.push_back(y);
          return sut("push of its own element", [&] { const T& v = from ? a.front() : a.back(); if (to) a.PushFront(v); else a.PushBack(v); });
        }
        const bool f = pick(2) != 0;
        if (f) w.front() = x;
        else w.back() = x;
        return sut("write", [&] { (f ? a.Front() : a.Back()) = El<T>::make(x); });
      }
      case 11: case 12: {
        const int j = one(6) ? k : (int)pick(kSlots);
        if (!h[j].live()) return true;
        if (j != k) { w = m[j]; cap[k] = cap[j]; }
        return sut("copy assignment", [&] { A& d = a; const A& s = *h[j]; d = s; });
      }
      case 13: {
        const int j = (int)pick(kSlots);
        if (j == k || !h[j].live()) return true;
        w = m[j];
        cap[k] = cap[j];
        return sut("move assignment", [&] { a = std::move(*h[j]); }) && resync(j);
      }
      default: return h[k].destroy("destruction") && (pick(2) || construct(k));
    }
  }
  void run() {
    const int ops = nbOps();
    bool ok = true;
    for (int i = 0; i < ops && ok; ++i) {
      ok = step();
      if (ok && !checkAll("all")) ok = false;
    }
    // every element that is left, in order
    for (int k = 0; k < kSlots && ok; ++k) {
      const bool front = pick(2) != 0;
      while (ok && h[k].live() && !m[k].empty()) ok = pop(k, front) && check(k, "the end");
    }
    if (ops > 3 && !t_ctx.stream) nontrivial();
    for (int k = 0; k < kSlots && ok; ++k) ok = h[k].destroy("destruction");
    if (ok) checkAllReleased();
  }
};
template <typename T>
void go() {
  evt("type", El<T>::name());
  World<T> w;
  w.run();
}
}  // namespace

void world_deque() {
  drawMemory(refusals());
  switch (pick(4)) {
    case 0: go<int>(); break;
    case 1: go<double>(); break;
    case 2: go<Obj>(); break;
    default: go<il::String>(); break;
  }
}
