// Dispatch of the container worlds.
#include "seq.h"

namespace sim {
const char* world_name = "containers";
#ifdef NDEBUG
extern const bool g_debug_checks = false;
#else
extern const bool g_debug_checks = true;
#endif
}  // namespace sim
namespace seq {
thread_local Ctx t_ctx;
}

#define BODIES(X) X(array) X(small) X(static) X(nd) X(align) X(map) X(maparray) X(string) X(dynamic) X(info) X(deque) X(status) X(tri) X(timer) X(memory) X(threads) X(solver) X(algo) X(dense) X(lapack) X(sparse) X(bounds) X(sizes) X(fresh) X(arith) X(utf16) X(tree)
#define DECL(n) void world_##n();
BODIES(DECL)

void sim::world() {
  seq::t_ctx = seq::Ctx{};
#ifdef WORLD
  WORLD();
#endif
}
