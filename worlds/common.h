#pragma once
#include <sim.h>

#include <il/Status.h>
#include <il/String.h>

// A value of type T in garbage-filled simulated memory, so that members the
// constructor forgets hold garbage, and its bytes are guarded on both sides.
template <typename T>
class Boxed {
  void* p_;
 public:
  template <typename F>
  explicit Boxed(F&& make) : p_{sim::rawAlloc(sizeof(T))} { make(p_); }
  Boxed(const Boxed&) = delete;
  Boxed(Boxed&& o) : p_{o.p_} { o.p_ = nullptr; }
  T& operator*() { return *static_cast<T*>(p_); }
  T* operator->() { return static_cast<T*>(p_); }
  T& get() { return *static_cast<T*>(p_); }
  void destroy() {
    if (!p_) return;
    {
      sim::Sut s;
      static_cast<T*>(p_)->~T();
    }
    sim::rawFree(p_);
    p_ = nullptr;
  }
};

inline il::String ilString(const std::string& s) {
  return il::String{il::StringType::Byte, s.data(), (il::int_t)s.size()};
}

// Outcome of a load/save as its caller sees it.
struct Outcome {
  bool died = false;
  bool ok = false;
  int error = 0;
};

namespace ioplan {
// Draws how the storage will behave. kind of operation: reading or writing.
struct Plan {
  bool faulty = false;
};
// size: an estimate of the bytes involved.
Plan drawStorage(bool writing, int64_t size);
}  // namespace ioplan
