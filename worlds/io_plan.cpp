// How the simulated storage behaves in a run.
#include "common.h"

namespace ioplan {
Plan drawStorage(bool writing, int64_t size) {
  using namespace sim;
  Plan p;
  Disk& d = g_disk;
  d.clearPlan();
  switch (draw(6)) {
    case 0: d.bufsize = 0; break;
    case 1: d.bufsize = -1; break;
    case 2: d.bufsize = 1 + (int)draw(7); break;
    case 3: d.bufsize = 8 + (int)draw(60); break;
    case 4: d.bufsize = 64 + (int)draw(1000); break;
    default: d.bufsize = 4096; break;
  }
  if (draw(2)) d.rate[writing ? F_SHORT_WRITE : F_SHORT_READ] = 1 + (unsigned)draw(3);
  if (flip(8)) d.rate[F_STALL] = 4;
  p.faulty = draw(4) != 0;
  if (!p.faulty) return p;
  d.budget = draw(3) == 2 ? 3 : 1;
  const uint64_t n = 1 + draw(2);
  for (uint64_t i = 0; i < n; ++i) {
    if (writing) {
      switch (draw(8)) {
        case 0: d.rate[F_OPEN] = 2; break;
        case 1: d.rate[F_CLOSE] = 1; break;
        case 2: d.rate[F_EIO_WRITE] = 1 + (unsigned)draw(12); break;
        case 3: d.rate[F_EINTR] = 1 + (unsigned)draw(12); break;
        case 4: case 5: case 6: {
          // around the end, around the header, anywhere
          switch (draw(4)) {
            case 0: d.space = (int64_t)draw((uint64_t)size + 8); break;
            case 1: d.space = size > 0 ? size - 1 - (int64_t)draw((uint64_t)(size < 16 ? size : 16)) : 0; break;
            case 2: d.space = (int64_t)draw(160); break;
            default: d.space = (int64_t)draw(2) * (int64_t)draw((uint64_t)size + 1); break;
          }
          break;
        }
        default: d.rate[F_SEEK] = 1 + (unsigned)draw(3); break;
      }
    } else {
      switch (draw(7)) {
        case 0: d.rate[F_OPEN] = 2; break;
        case 1: d.rate[F_CLOSE] = 1; break;
        case 2: d.rate[F_EIO_READ] = 1 + (unsigned)draw(12); break;
        case 3: d.rate[F_EINTR] = 1 + (unsigned)draw(12); break;
        case 4: case 5: d.read_error_at = (int64_t)draw((uint64_t)size + 2); break;
        default: d.rate[F_SEEK] = 1 + (unsigned)draw(3); break;
      }
    }
  }
  return p;
}
}  // namespace ioplan
