#include "common.h"

namespace sim {
const char* world_name = "io";
#ifdef NDEBUG
extern const bool g_debug_checks = false;
#else
extern const bool g_debug_checks = true;
#endif
}  // namespace sim

void world_npy();
void world_toml();
void world_data();
void world_file();
void world_ppm();

void sim::world() {
#ifdef ONLY_NPY
  world_npy();
#elif defined(ONLY_TOML)
  world_toml();
#elif defined(ONLY_DATA)
  world_data();
#elif defined(ONLY_FILE)
  world_file();
#elif defined(ONLY_PPM)
  world_ppm();
#else
  switch (draw(3)) {
    case 0: world_npy(); break;
    case 1: world_toml(); break;
    default: world_data(); break;
  }
#endif
}
